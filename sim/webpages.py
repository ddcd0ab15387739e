"""Pages of a checkout in a simulated browser (sim/browser, under node)."""
import json
import os
import select
import shutil
import signal

from . import loader
from .core import HarnessError

_here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'browser')
_proc = {}


class Hang(Exception):
    """The page never gives the control back."""


class Undecided(Exception):
    """The page uses something which the simulated browser lacks."""


class Proc:

    def __init__(self):
        node = shutil.which('node') or '/usr/bin/node'
        in_r, in_w = os.pipe()
        out_r, out_w = os.pipe()
        # stdlib subprocess is replaced by the simulated one here
        self.pid = os.posix_spawn(
            node, [node, '--stack-size=4000',
                   os.path.join(_here, 'browser.js')], dict(os.environ),
            file_actions=[(os.POSIX_SPAWN_DUP2, in_r, 0),
                          (os.POSIX_SPAWN_DUP2, out_w, 1)])
        os.close(in_r)
        os.close(out_w)
        self.w, self.r = in_w, out_r
        self.buf = b''

    def send(self, d):
        data = json.dumps(d).encode() + b'\n'
        while data:
            data = data[os.write(self.w, data):]
        begun = None
        while b'\n' not in self.buf:
            ready, _, _ = select.select([self.r], [], [], 5)
            if not ready:
                # time of the processor: the machine may just be busy
                begun = self.used() if begun is None else begun
                if self.used() > begun + 40:
                    self.end()
                    raise Hang()
                continue
            x = os.read(self.r, 1 << 16)
            if not x:
                self.end()
                raise HarnessError('the simulated browser has stopped')
            self.buf += x
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode())

    def used(self):
        with open('/proc/%d/stat' % self.pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')

    def end(self):
        _proc.clear()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.close(self.w)
        os.close(self.r)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def proc():
    if os.getpid() not in _proc:
        _proc.clear()
        _proc[os.getpid()] = Proc()
    return _proc[os.getpid()]


class Browser:
    """One page; everything that happens to it is asked for here."""

    def __init__(self, page, **opts):
        self.proc = proc()
        self.requests = {}
        self.errors = []
        self.topics = []
        self.do('open', page=os.path.join(loader.REPO, 'visualization', page),
                **opts)

    def do(self, op, **args):
        args['op'] = op
        r = self.proc.send(args)
        if 'crash' in r:
            if 'no progress' in r['crash']:
                raise Hang()
            raise HarnessError('in the simulated browser: ' + r['crash'])
        if 'open' in r:
            self.requests = dict(r['open'])
            self.errors += r['errors']
            self.topics = r['topics']
            self.now = r['now']
            if r['lacks']:
                raise Undecided(r['lacks'])
        return r

    def look(self, selector):
        return self.do('look', at=selector)['found']

    def settle(self, limit=3000):
        return self.do('settle', limit=limit)['settled']

    def take_errors(self):
        e, self.errors = self.errors, []
        return e
