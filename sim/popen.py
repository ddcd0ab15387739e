"""Simulated child programs: what `subprocess` (and os.system) would start is
played by a handler inside the simulation, which decides what the program
does with its files, what it prints, and how it ends.
"""
import errno
import io
import os
import shlex
import signal
import subprocess

from . import core
from .core import HarnessError

RealPopen = subprocess.Popen
ACTIVE = None


class Programs:
    """Context: basename of executable -> handler(call) -> Outcome."""

    def __init__(self, ctx, **handlers):
        self.ctx = ctx
        self.handlers = {k.replace('_', '-'): v for k, v in handlers.items()}
        self.calls = []
        self.clock = 0.

    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError('nested programs')
        ACTIVE = self
        return self

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = None

    def start(self, call):
        name = os.path.basename(call.argv[0])
        self.calls.append(call)
        f = self.handlers.get(name)
        if f is None:
            raise HarnessError('no such program in the simulation: {}'.format(
                call.argv))
        return f(call)


class Call:

    def __init__(self, argv, cwd, env, stdin):
        self.argv = argv
        self.cwd = cwd or os.getcwd()
        self.env = env
        self.stdin = stdin


class Outcome:

    def __init__(self, rc=0, out=b'', err=b'', duration=0.):
        self.rc, self.out, self.err, self.duration = rc, out, err, duration


class SimPopen:

    def __new__(cls, *args, **kwargs):
        if ACTIVE is None:
            return RealPopen(*args, **kwargs)
        return object.__new__(cls)

    @classmethod
    def __class_getitem__(cls, item):
        return cls

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None,
                 umask=-1, pipesize=-1, process_group=None):
        if isinstance(args, (str, bytes)):
            s = args if isinstance(args, str) else args.decode()
            argv = shlex.split(s) if shell else [s]
        else:
            argv = [os.fspath(a) if hasattr(a, '__fspath__') else a
                    for a in args]
            argv = [a.decode() if isinstance(a, bytes) else a for a in argv]
            for a in argv:
                if not isinstance(a, str):
                    raise TypeError('expected str, bytes or os.PathLike '
                                    'object, not ' + type(a).__name__)
        self.args = args
        self.pid = 7000 + len(ACTIVE.calls)
        self.returncode = None
        self._text = bool(text or universal_newlines or encoding or errors)
        self._enc = encoding or 'utf-8'
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                                    cwd)
        out = ACTIVE.start(Call(argv, cwd, env, None))
        if isinstance(out, BaseException):
            raise out
        self._out = out
        self._killed = None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        data = out.out + (out.err if stderr == subprocess.STDOUT else b'')
        self.stdout = self._stream(stdout, data)
        self.stderr = self._stream(stderr, out.err) \
            if stderr != subprocess.STDOUT else None

    def _stream(self, where, data):
        if where == subprocess.PIPE:
            b = io.BytesIO(data)
            return io.TextIOWrapper(b, self._enc) if self._text else b
        if where is None or where == subprocess.DEVNULL:
            return None
        fd = where if isinstance(where, int) else where.fileno()
        os.write(fd, data)
        return None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()

    def _end(self, timeout):
        if self.returncode is None:
            d = self._out.duration
            if timeout is not None and d > timeout and self._killed is None:
                if ACTIVE is not None:
                    ACTIVE.clock += timeout
                self._out.duration = d - timeout
                raise subprocess.TimeoutExpired(self.args, timeout)
            if ACTIVE is not None and self._killed is None:
                ACTIVE.clock += d
            self.returncode = self._killed or self._out.rc
        return self.returncode

    def wait(self, timeout=None):
        return self._end(timeout)

    def poll(self):
        return self._end(None)

    def communicate(self, input=None, timeout=None):
        self._end(timeout)
        return (self.stdout.read() if self.stdout is not None else None,
                self.stderr.read() if self.stderr is not None else None)

    def send_signal(self, sig):
        if self.returncode is None:
            self._killed = -int(sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)


_real_system = os.system


def _system(command):
    if ACTIVE is None:
        return _real_system(command)
    out = ACTIVE.start(Call(shlex.split(command), None, None, None))
    if isinstance(out, BaseException):
        return 127 << 8
    ACTIVE.clock += out.duration
    return out.rc << 8 if out.rc >= 0 else -out.rc


def install():
    subprocess.Popen = SimPopen
    os.system = _system


# A simulated `ps` -------------------------------------------------------------

class Ps:
    """`ps -o etime= -p PID` over simulated process ages.

    ages: pid -> seconds (float), or a callable.  clock: seconds the query
    itself takes before the age is read.
    """

    def __init__(self, ctx, age, me=None):
        self.ctx = ctx
        self.age = age            # callable(pid) -> seconds or None
        self.fault = None
        self.read = []            # (pid, age) read by ps, in order

    def __call__(self, call):
        argv = call.argv[1:]
        fmt, pid, header = [], None, True
        i = 0
        while i < len(argv):
            a = argv[i]
            if a in ('-o', '--format'):
                i += 1
                fmt.append(argv[i])
            elif a.startswith('--format='):
                fmt.append(a.split('=', 1)[1])
            elif a.startswith('-o'):
                fmt.append(a[2:])
            elif a in ('-p', '--pid'):
                i += 1
                pid = argv[i]
            elif a.startswith('--pid='):
                pid = a.split('=', 1)[1]
            elif a.startswith('-p'):
                pid = a[2:]
            elif a in ('-h', '--no-headers', '--no-heading'):
                header = False
            elif a.isdigit():
                pid = a
            else:
                raise HarnessError('ps option not simulated: {}'.format(argv))
            i += 1
        fault, self.fault = self.fault, None
        if fault is not None:
            self.ctx.fault('ps-' + fault)
            self.ctx.event('ps fails', fault)
        if fault == 'missing':
            return FileNotFoundError(errno.ENOENT,
                                     'No such file or directory', 'ps')
        if fault == 'no-memory':
            return OSError(errno.ENOMEM, 'Cannot allocate memory')
        if fault == 'killed':
            return Outcome(-9)
        if fault == 'error':
            return Outcome(1, b'', b'error: failed to open /proc\n')
        if fault == 'error-after-output':
            return Outcome(1, b'      00:01\n')
        if pid is None or not pid.strip().lstrip('+').isdigit():
            return Outcome(1, b'', b'error: process ID list syntax error\n')
        # every -o gives columns; what follows '=' heads the last one of them
        columns = []
        for f in fmt:
            f, eq, head = f.partition('=')
            for n in f.split(','):
                columns.append([n, HEADS.get(n, n.upper()) if header else ''])
            if eq:
                columns[-1][1] = head
        for n, _ in columns:
            if n not in HEADS:
                raise HarnessError('ps format not simulated: ' + n)
        age = self.age(int(pid))
        lines = []
        if any(h for _, h in columns):
            lines.append(' '.join(h.rjust(WIDTHS.get(n, 11))
                                  for n, h in columns))
        if age is None:
            return Outcome(1, ''.join(l + '\n' for l in lines).encode())
        self.read.append((int(pid), age))
        self.ctx.event('ps', 'own' if int(pid) == os.getpid() else pid,
                       'age', '%.3f' % age)
        busy = .31 * age     # processor time
        values = {'etime': etime(age), 'etimes': '%d' % age,
                  'pid': pid.strip(), 'comm': 'python',
                  'time': cputime(busy), 'cputime': cputime(busy),
                  'times': '%d' % busy, 'cputimes': '%d' % busy}
        lines.append(' '.join(values[n].rjust(WIDTHS.get(n, 11))
                              for n, _ in columns))
        if fault == 'nothing-printed':
            return Outcome(0, b'')
        return Outcome(0, ''.join(l + '\n' for l in lines).encode(),
                       duration=.01)


HEADS = {'etime': 'ELAPSED', 'etimes': 'ELAPSED',
         'time': 'TIME', 'cputime': 'TIME', 'times': 'TIME',
         'cputimes': 'TIME', 'pid': 'PID', 'comm': 'COMMAND'}
WIDTHS = {'pid': 7, 'etimes': 7, 'times': 8, 'cputimes': 8, 'time': 8,
          'cputime': 8}


def cputime(t):
    """As printed by procps: [DD-]hh:mm:ss."""
    t = int(t)
    s, m, h, d = t % 60, t // 60 % 60, t // 3600 % 24, t // 86400
    return ('%d-' % d if d else '') + '%02d:%02d:%02d' % (h, m, s)


def etime(age):
    """As printed by procps: [[DD-]hh:]mm:ss."""
    t = int(age)
    s, m, h, d = t % 60, t // 60 % 60, t // 3600 % 24, t // 86400
    out = '%02d:%02d' % (m, s)
    if d or h:
        out = '%02d:' % h + out
    if d:
        out = '%02d-' % d + out
    return out
