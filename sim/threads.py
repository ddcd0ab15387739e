"""Simulated threads and clock.

Real OS threads, of which exactly one runs at a time: each is parked on its
own private lock and released by the simulated scheduler only.  Every lock
operation, sleep, thread start/end and (on request) every source line or
byte-code instruction of the code under test is a scheduling point, and what
runs next is drawn from the run's choices.  `threading` as seen by the code
under test is the standard library's own source executed over a simulated
`_thread` module, `queue` likewise; `time` reads the simulated clock.
"""
import _thread as real_thread
import os
import sys
import types

import time as real_time

from .core import Violation, HarnessError

KERNEL = None      # the active kernel, if any

TOOL = 4
MAX_STEPS = 1000000     # scheduling points in one caller operation


class _Sim:
    """One simulated thread."""

    def __init__(self, tid):
        self.tid = tid
        self.real = None
        self.wake = real_thread.allocate_lock()
        self.wake.acquire()
        self.state = 'run'      # run | block | sleep | done
        self.deadline = None
        self.on = None
        self.timed_out = False
        self.sentinel = None
        self.quiet = 0          # >0: no preemption (harness code)
        self.late = None        # points left before its late-start stall


class Kernel:

    def __init__(self, ctx, gap=0, tick=1e-4, lines=False, opcodes=False,
                 max_steps=MAX_STEPS, stall=0.):
        """:param gap: largest number of points between two preemptions
                 (0: threads are only switched when they block)
        """
        self.ctx = ctx
        self.ch = ctx.ch
        self.gap = gap
        self.tick = tick
        self.lines = lines or opcodes
        self.opcodes = opcodes
        self.now = 0.
        self.steps = 0
        self.budget = max_steps
        self.max_steps = max_steps
        self.stall = stall
        self.switches = 0
        self.dead = None
        self.threads = []
        self.idents = {}
        self.main = _Sim(0)
        self.main.real = real_thread.get_ident()
        self.threads.append(self.main)
        self.idents[self.main.real] = self.main
        self.current = self.main
        self.unhandled = []     # (thread name, exception) of dead threads
        self.countdown = self._draw_gap()
        self.stall_main = True
        self.late_starts = False  # new threads may be stalled early on

    # Life cycle

    def __enter__(self):
        global KERNEL
        if KERNEL is not None:
            raise HarnessError('nested kernels')
        KERNEL = self
        if self.lines:
            _monitor_on(self)
        return self

    def __exit__(self, *exc):
        global KERNEL
        KERNEL = None
        if self.lines:
            _monitor_off()
        self.ctx.sim_time += self.now
        self.ctx.probe('context-switches', self.switches)
        self.ctx.probe('scheduling-points', self.steps)

    # Scheduling

    def _draw_gap(self):
        if not self.gap:
            return 1 << 60
        v = self.ch.draw(self.gap + 1)
        return (1 << 60) if v == 0 else v

    def renew(self):
        """The caller starts another operation: it gets a new budget."""
        self.max_steps = self.steps + self.budget

    def me(self):
        return self.idents.get(real_thread.get_ident())

    def point(self, what='point'):
        me = self.current
        if self.dead is not None or me.quiet:
            return
        if real_thread.get_ident() != me.real:
            return
        self.steps += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            self.fail(Violation(
                'no-progress', 'still running after {} scheduling points and '
                '{:.1f}s of simulated time'.format(self.budget, self.now)))
        if me.late is not None:
            me.late -= 1
            if me.late < 0:
                me.late = None
                self.ctx.fault('late-start')
                self.sleep(self.ch.pick([.5, .02, 5.]))
                return
        self._wake_sleepers()
        self.countdown -= 1
        if self.countdown <= 0:
            self.countdown = self._draw_gap()
            if self.stall and (me.tid or self.stall_main) and \
                    self.ch.chance(self.stall):
                # this thread is stalled for a while
                self.ctx.fault('stall')
                self.sleep(self.ch.pick([.02, .5, 5.]))
            else:
                self._reschedule(me, what)

    def _wake_sleepers(self):
        for t in self.threads:
            if t.deadline is not None and t.deadline <= self.now and \
                    t.state in ('sleep', 'block'):
                t.timed_out = True
                t.state = 'run'
                t.deadline = None

    def _reschedule(self, me, what):
        """Hands the processor to any runnable thread (maybe this one)."""
        while True:
            ready = [t for t in self.threads if t.state == 'run']
            if ready:
                break
            waiting = [t for t in self.threads if t.deadline is not None
                       and t.state in ('sleep', 'block')]
            if not waiting:
                self.fail(Violation(
                    'deadlock', 'no thread can ever run again: ' + '; '.join(
                        'thread {} {} {}'.format(t.tid, t.state, t.on)
                        for t in self.threads if t.state != 'done')))
            self.now = max(self.now, min(t.deadline for t in waiting))
            self._wake_sleepers()
        if me in ready:
            ready.remove(me)
            ready.insert(0, me)
        nxt = ready[self.ch.draw(len(ready))]
        if nxt is me:
            return
        self.switches += 1
        self.ctx.sched('{}>{}@{}:{}'.format(me.tid, nxt.tid, what,
                                                  self.steps))
        if self.ctx.keep_trace:
            self.ctx.trace.append('    [switch {} -> {} at {} t={:.4f}]'.format(
                me.tid, nxt.tid, what, self.now))
        self._transfer(me, nxt)

    def _transfer(self, me, nxt):
        self.current = nxt
        nxt.wake.release()
        if me.state == 'done':
            return
        me.wake.acquire()
        if self.dead is not None:
            if me is self.main:
                raise self.dead
            self._park_forever()

    def _park_forever(self):
        l = real_thread.allocate_lock()
        l.acquire()
        l.acquire()

    def fail(self, v):
        """Ends the run with a violation, from whichever thread."""
        if self.ctx.first_violation is None:
            self.ctx.first_violation = v
        self.dead = v
        me = self.me()
        if me is self.main or me is None:
            raise v
        self.current = self.main
        self.main.wake.release()
        self._park_forever()

    # Blocking operations

    def block(self, me, on, timeout=None):
        """Returns False if it timed out."""
        me.state = 'block'
        me.on = on
        me.timed_out = False
        me.deadline = None if timeout is None else self.now + timeout
        self._reschedule(me, 'block')
        me.on = None
        me.deadline = None
        return not me.timed_out

    def unblock_all(self, on):
        for t in self.threads:
            if t.state == 'block' and t.on is on:
                t.state = 'run'
                t.deadline = None
                t.timed_out = False

    def sleep(self, d):
        me = self.current
        if self.dead is not None or real_thread.get_ident() != me.real:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail(Violation('no-progress', 'still running after {} '
                                'scheduling points'.format(self.steps)))
        me.state = 'sleep'
        me.on = None
        me.deadline = self.now + max(0., d)
        self._reschedule(me, 'sleep')
        me.deadline = None

    def idle(self, d):
        """The caller does something else for d simulated seconds."""
        self.renew()
        self.sleep(d)

    # Threads

    def start(self, func, args, kwargs):
        t = _Sim(len(self.threads))
        if len(self.threads) > 40:
            raise HarnessError('too many threads')
        self.threads.append(t)
        if self.late_starts and self.ch.chance(.5):
            t.late = self.ch.draw(25)
        started = real_thread.allocate_lock()
        started.acquire()

        def boot():
            t.real = real_thread.get_ident()
            self.idents[t.real] = t
            started.release()
            t.wake.acquire()
            if self.dead is not None:
                self._park_forever()
            try:
                func(*args, **kwargs)
            except SystemExit:
                pass
            except Violation as v:
                self.fail(v)
            except BaseException as e:
                self.unhandled.append((t.tid, e))
            t.state = 'done'
            if t.sentinel is not None:
                t.sentinel._release_at_exit(self)
            self.ctx.sched('end{}'.format(t.tid))
            if self.dead is not None:
                self._park_forever()
            # ends: hand over and let the OS thread finish
            self._reschedule(t, 'thread end')

        real_thread.start_new_thread(boot, ())
        started.acquire()
        self.point('start')
        return t.tid + 1000

    def alive(self, tid):
        return self.threads[tid].state != 'done'


class quiet:
    """Harness code during which the current thread is not preempted."""

    def __enter__(self):
        self.t = KERNEL.me() if KERNEL is not None else None
        if self.t is not None:
            self.t.quiet += 1

    def __exit__(self, *exc):
        if self.t is not None:
            self.t.quiet -= 1


# Line / instruction level scheduling points --------------------------------

_REPO_PREFIX = None


def set_repo_prefix(p):
    global _REPO_PREFIX
    _REPO_PREFIX = p.rstrip('/') + '/'


def _monitor_on(k):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')
    prefix = _REPO_PREFIX

    def on_event(code, where):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        if KERNEL is k:
            k.point('line')

    ev = mon.events.INSTRUCTION if k.opcodes else mon.events.LINE
    mon.register_callback(TOOL, ev, on_event)
    mon.set_events(TOOL, ev)


def _monitor_off():
    sys.monitoring.set_events(TOOL, 0)
    sys.monitoring.free_tool_id(TOOL)


# Simulated _thread ----------------------------------------------------------

class SimLock:

    def __init__(self):
        self._locked = False

    def __repr__(self):
        return '<lock {}>'.format('held' if self._locked else 'free')

    def acquire(self, blocking=True, timeout=-1):
        k = KERNEL
        me = k.me() if k is not None else None
        if me is None or k.dead is not None:
            if self._locked and k is None:
                if not blocking or timeout >= 0:
                    return False
                raise Violation('deadlock', 'a lock that is never released '
                                'is waited for')
            self._locked = True
            return True
        k.point('acquire')
        while self._locked:
            if not blocking:
                return False
            if not k.block(me, self, None if timeout < 0 else timeout):
                if self._locked:
                    return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        k = KERNEL
        if not self._locked:
            if k is not None and k.dead is not None:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if k is not None and k.me() is not None:
            k.unblock_all(self)
            k.point('release')

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False

    def _release_at_exit(self, k):
        self._locked = False
        k.unblock_all(self)


def _make_thread_module():
    m = types.ModuleType('_thread')
    m.LockType = SimLock
    m.allocate_lock = m.allocate = SimLock
    m.error = RuntimeError
    m.TIMEOUT_MAX = real_thread.TIMEOUT_MAX
    m._local = real_thread._local

    def start_new_thread(func, args, kwargs={}):
        if KERNEL is None:
            raise HarnessError('a thread is started outside a simulation')
        return KERNEL.start(func, args, kwargs)

    m.start_new_thread = m.start_new = start_new_thread

    def get_ident():
        k = KERNEL
        me = k.me() if k is not None else None
        return 1000 + (me.tid if me is not None else 0)

    m.get_ident = get_ident
    m.get_native_id = get_ident
    m._is_main_interpreter = lambda: True
    m.daemon_threads_allowed = lambda: True
    m.stack_size = lambda size=0: 0
    m.interrupt_main = lambda *a: None
    m.exit = real_thread.exit

    def _set_sentinel():
        l = SimLock()
        k = KERNEL
        me = k.me() if k is not None else None
        if me is not None:
            me.sentinel = l
        return l

    m._set_sentinel = _set_sentinel
    return m


class _SimTime(types.ModuleType):

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        for n in dir(real_time):
            if not n.startswith('__'):
                setattr(self, n, getattr(real_time, n))
        self.clock = lambda: 0.    # used when no kernel runs
        self.epoch = 1500000000.
        self.sleep = self._sleep
        for n in ('time', 'monotonic', 'perf_counter', 'process_time',
                  'thread_time'):
            setattr(self, n, self._reader(n == 'time'))
            setattr(self, n + '_ns', self._reader(n == 'time', True))

    def _now(self):
        return KERNEL.now if KERNEL is not None else self.clock()

    def _reader(self, wall, ns=False):
        def read():
            t = self._now() + (self.epoch if wall else 0.)
            return int(t * 1e9) if ns else t
        return read

    def _sleep(self, d):
        if KERNEL is not None and KERNEL.me() is not None:
            KERNEL.sleep(d)
        elif hasattr(self, 'on_sleep'):
            self.on_sleep(d)


def _exec_stdlib(name, overrides):
    """Private copy of a pure-Python standard module over other modules."""
    import importlib.util
    spec = importlib.util.find_spec(name)
    with open(spec.origin) as f:
        src = f.read()
    mod = types.ModuleType(name)
    mod.__file__ = spec.origin
    saved = {k: sys.modules.get(k) for k in overrides}
    reg = os.register_at_fork
    try:
        os.register_at_fork = lambda **k: None
        sys.modules.update(overrides)
        exec(compile(src, spec.origin, 'exec'), mod.__dict__)
    finally:
        os.register_at_fork = reg
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return mod


sim_thread_module = _make_thread_module()
sim_time = _SimTime('time')
sim_threading = _exec_stdlib('threading', {'_thread': sim_thread_module,
                                           'time': sim_time})
sim_queue = _exec_stdlib('queue', {'threading': sim_threading,
                                   'time': sim_time, '_queue': None})


def _excepthook(args):
    k = KERNEL
    if isinstance(args.exc_value, Violation):
        k.fail(args.exc_value)
    if k is not None:
        me = k.me()
        k.unhandled.append((me.tid if me else None, args.exc_value))


sim_threading.excepthook = _excepthook
