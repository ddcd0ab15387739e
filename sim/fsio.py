"""Simulated storage under one directory: files opened there go through a raw
layer that can fail, write short, or end the simulated process at any byte;
after a crash only what was durable survives.
"""
import builtins
import errno
import io
import os
import sys

from .core import SimCrash, HarnessError

_real_open = builtins.open
ACTIVE = None

WRITE_KINDS = ('enospc', 'eio', 'eio-once', 'short-writes', 'close-error',
               'open-denied', 'crash', 'power-loss', 'torn-block')
READ_KINDS = ('read-eio', 'read-open-denied')


class FaultFS:

    def __init__(self, ctx, root):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.kind = None
        self.at = 0            # bytes written before the fault
        self.dead = False
        self.written = 0
        self.fired = False
        self.files = []        # paths opened for writing since arm()
        self.synced = {}       # inode -> durable size

    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested storage')
        ACTIVE = self
        builtins.open = _open
        io.open = _open
        # modules of the system that imported `open` by name
        self._named = [m for name, m in list(sys.modules.items())
                       if name.split('.')[0] == 'task_models'
                       and vars(m).get('open') is _real_open]
        for m in self._named:
            m.open = _open
        self._os = {}
        for n in ('rename', 'replace', 'remove', 'unlink', 'fsync', 'mkdir',
                  'rmdir', 'truncate', 'link'):
            self._os[n] = getattr(os, n)
            setattr(os, n, self._guard(n))
        return self

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = None
        builtins.open = _real_open
        io.open = _real_open
        for m in self._named:
            m.open = _real_open
        for n, f in self._os.items():
            setattr(os, n, f)

    def _guard(self, name):
        real = self._os[name]

        def f(*args, **kwargs):
            if self.dead:
                raise SimCrash(name)
            if name == 'fsync':
                fd = args[0] if isinstance(args[0], int) else args[0].fileno()
                st = os.fstat(fd)
                self.synced[st.st_ino] = st.st_size
            return real(*args, **kwargs)

        return f

    def arm(self, kind, at=0):
        """One fault: kind, after `at` bytes written from now on."""
        self.kind, self.at = kind, at
        self.written = 0
        self.fired = False
        self.dead = False
        self.files = []
        self.ctx.event('storage fault armed', kind, at)

    def disarm(self):
        self.kind = None

    def fire(self):
        if not self.fired:
            self.ctx.fault('disk-' + self.kind)
            self.ctx.event('storage fault', self.kind, 'after', self.written)
        self.fired = True

    def reboot(self):
        """Comes back after a crash: what was not made durable may be lost."""
        kind = self.kind
        self.dead = False
        self.kind = None
        if kind == 'crash':
            return          # the operating system survives: nothing lost
        for path in self.files:
            try:
                st = os.stat(path)
            except OSError:
                continue
            low = min(self.synced.get(st.st_ino, 0), st.st_size)
            if kind == 'power-loss':
                keep = low + self.ctx.ch.draw(st.st_size - low + 1)
                os.truncate(path, keep)
                self.ctx.event('after reboot', keep, 'of', st.st_size)
            elif kind == 'torn-block' and st.st_size > low:
                # one block never reached the disk
                size = self.ctx.ch.pick([512, 4096, 64])
                first, last = low // size, (st.st_size - 1) // size
                b = first + self.ctx.ch.draw(last - first + 1)
                lo, hi = max(low, b * size), min(st.st_size, (b + 1) * size)
                with _real_open(path, 'r+b') as f:
                    f.seek(lo)
                    f.write(b'\0' * (hi - lo))
                self.ctx.event('after reboot block', lo, hi, 'lost')


class Raw(io.FileIO):

    _fs = None
    _path = None

    def write(self, b):
        fs = self._fs
        if fs is None or fs.kind is None:
            return super().write(b)
        if fs.dead:
            raise SimCrash('write')
        b = bytes(memoryview(b).cast('B'))
        k = fs.kind
        room = fs.at - fs.written
        if k == 'short-writes' and len(b) > 1:
            fs.fire()
            n = super().write(b[:max(1, len(b) // 3)])
            fs.written += n
            return n
        if k in ('enospc', 'eio', 'eio-once', 'crash', 'power-loss',
                 'torn-block') and len(b) > room and not (
                     k == 'eio-once' and fs.fired):
            if room > 0 and k not in ('eio', 'eio-once'):
                n = super().write(b[:room])
                fs.written += n
                if k == 'enospc':
                    return n
            fs.fire()
            if k == 'enospc':
                raise OSError(errno.ENOSPC, 'No space left on device')
            if k in ('eio', 'eio-once'):
                raise OSError(errno.EIO, 'Input/output error')
            fs.dead = True
            raise SimCrash('write')
        n = super().write(b)
        fs.written += n
        return n

    def truncate(self, size=None):
        if self._fs is not None and self._fs.dead:
            raise SimCrash('truncate')
        return super().truncate(size)

    def readinto(self, b):
        self._read_fault()
        return super().readinto(b)

    def readall(self):
        self._read_fault()
        return super().readall()

    def read(self, size=-1):
        self._read_fault()
        return super().read(size)

    def _read_fault(self):
        fs = self._fs
        if fs is not None and fs.kind == 'read-eio':
            fs.fire()
            raise OSError(errno.EIO, 'Input/output error')

    def close(self):
        fs = self._fs
        was = self.closed
        super().close()
        if fs is not None and not was and fs.kind == 'close-error' \
                and self.writable_ and not fs.dead:
            fs.fire()
            raise OSError(errno.EIO, 'Input/output error')


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    fs = ACTIVE
    if fs is None or isinstance(file, int) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    path = os.path.realpath(os.fspath(file) if isinstance(
        os.fspath(file), str) else os.fsdecode(file))
    if not path.startswith(fs.root + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    if fs.dead:
        raise SimCrash('open')
    writing = any(c in mode for c in 'wax+')
    if writing and fs.kind == 'open-denied' or \
            not writing and fs.kind == 'read-open-denied':
        fs.fire()
        raise PermissionError(errno.EACCES, 'Permission denied', path)
    if 'b' in mode and 't' in mode:
        raise ValueError("can't have text and binary mode at once")
    raw = Raw(path, mode.replace('b', '').replace('t', ''))
    raw._fs = fs
    raw._path = path
    raw.writable_ = writing
    if writing and path not in fs.files:
        fs.files.append(path)
        if 'w' in mode:
            fs.synced[os.stat(path).st_ino] = 0
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else 8192
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                            line_buffering=buffering == 1)
    text.mode = mode
    return text
