"""Simulated multiprocessing: a discrete-event world of worker processes.

A worker's memory isolation is real: its target runs, to completion, in a real
forked child of the simulation, which only reports what it put in queues and
how it ended.  *When* each of these things happens - how long the worker runs,
when its feeder thread gets its results through the shared pipe (a lock, a
bounded buffer), when it exits, and whether it is killed on the way - is
decided by the simulated world, whose clock only moves when the parent
performs an operation.
"""
import errno
import heapq
import os
import pickle
import sys
import traceback
import types

from . import core, threads
from .core import HarnessError, Violation

WORLD = None
CHILD = None      # recorder, in the forked child running a worker's target

KILL_KINDS = ('kill-before-put', 'kill-unflushed', 'kill-holding-lock',
              'kill-mid-write', 'kill-after-flush')


class Child:

    def __init__(self, proc, ch, t_end):
        self.proc = proc
        self.ch = ch
        self.puts = []
        self.report = []
        self.t_end = t_end
        self.put_limit = None


class World:

    def __init__(self, ctx, cpus=2, op_cost=.01, capacity=1 << 16,
                 slow_feeders=False):
        self.ctx = ctx
        self.ch = ctx.ch
        self.cpus = cpus
        self.now = 0.
        self.op_cost = op_cost
        self.capacity = capacity
        self.slow_feeders = slow_feeders
        self.events = []
        self.seq = 0
        self.procs = []
        self.max_alive = 0
        self.ops = 0
        self.idle_ops = 0
        self.steps_done = 0
        self.polls = 0
        self.plan = {}         # worker index -> fault kind
        self.durations = None  # callable(index) -> seconds
        self.child_setup = None

    def __enter__(self):
        global WORLD
        if WORLD is not None:
            raise HarnessError('nested worlds')
        WORLD = self
        self._clock = threads.sim_time.clock
        self._on_sleep = getattr(threads.sim_time, 'on_sleep', None)
        threads.sim_time.clock = lambda: (
            self.now if CHILD is None else CHILD.t_end)
        threads.sim_time.on_sleep = self.sleep
        self._cpu = os.cpu_count, getattr(os, 'sched_getaffinity', None)
        os.cpu_count = lambda: self.cpus
        os.sched_getaffinity = lambda pid: set(range(self.cpus))
        return self

    def __exit__(self, *exc):
        global WORLD
        WORLD = None
        threads.sim_time.clock = self._clock
        threads.sim_time.on_sleep = self._on_sleep or (lambda d: None)
        os.cpu_count = self._cpu[0]
        os.sched_getaffinity = self._cpu[1]
        self.ctx.sim_time += self.now

    # Time

    def at(self, dt, f):
        self.seq += 1
        heapq.heappush(self.events, (self.now + dt, self.seq, f))

    def _step(self):
        t, seq, f = heapq.heappop(self.events)
        self.steps_done += 1
        self.ctx.sched(seq)
        self.now = max(self.now, t)
        f()

    def advance(self, dt):
        end = self.now + dt
        while self.events and self.events[0][0] <= end:
            self._step()
        self.now = end

    def sleep(self, d):
        self.op(d)

    def op(self, cost=None):
        """The parent does something."""
        self.ops += 1
        if self.ops > 100000:
            raise self._violation('no-progress', 'the parent made 100000 '
                                  'operations without finishing')
        if not self.events:
            self.idle_ops += 1
            if self.idle_ops > 3000:
                raise self._violation(
                    'hang', 'every worker has finished or is stuck, and the '
                    'caller keeps waiting')
        dt = self.op_cost if cost is None else cost
        seq = self.steps_done
        # a parent that polls: skip ahead to when something happens
        if self.events and self.polls > 60:
            dt = max(dt, self.events[0][0] - self.now)
        self.advance(dt)
        self.polls = self.polls + 1 if self.steps_done == seq else 0

    def wait_until(self, cond, timeout, what):
        """Blocks the parent; returns whether cond holds."""
        self.op()
        end = None if timeout is None else self.now + max(0., timeout)
        while not cond():
            if self.events and (end is None or self.events[0][0] <= end):
                self._step()
            elif end is not None:
                self.now = end
                return cond()
            else:
                raise self._violation('hang', 'the caller waits forever: ' +
                                      what)
        return True

    def _violation(self, kind, msg, sig=None):
        v = Violation(kind, msg + ' (simulated time {:.2f}s, workers: {})'.format(
            self.now, ', '.join(p._describe() for p in self.procs)), sig)
        if self.ctx.first_violation is None:
            self.ctx.first_violation = v
        return v

    def alive(self):
        return [p for p in self.procs if p._state == 'running']


class Process:

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={},
                 daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self._state = 'new'
        self._exit = None
        self.daemon = bool(daemon)
        self._name = name or 'Process'
        self._index = None

    name = property(lambda self: self._name)

    def _describe(self):
        return '#{} {} exit={}'.format(self._index, self._state, self._exit)

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = WORLD
        if w is None or CHILD is not None:
            raise HarnessError('process started outside the simulated world')
        assert self._state == 'new', 'cannot start a process twice'
        w.op()
        self._index = len(w.procs)
        if self._index > 200:
            raise w._violation('no-progress', 'more than 200 workers started')
        fault = w.plan.get(self._index)
        if fault == 'start-failure':
            w.ctx.fault(fault)
            w.ctx.event('worker', self._index, 'cannot be started')
            w.plan.pop(self._index)
            raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
        w.procs.append(self)
        self._t0 = w.now
        self._fault = fault
        self._dur = float(w.durations(self._index))
        seed = w.ch.draw(1 << 16)
        out = self._execute(w, seed)
        self._out = out
        self.report = out['report']
        self._buffer = []
        self._main_done = False
        self._writing = False
        self._state = 'running'
        w.max_alive = max(w.max_alive, len(w.alive()))
        w.ctx.event('worker', self._index, 'starts t={:.3f} dur={:.3f} '
                    'puts={} code={} fault={}'.format(
                        w.now, self._dur, len(out['puts']), out['code'],
                        fault))
        k = len(out['puts'])
        if fault == 'kill-before-put':
            w.at(self._dur, lambda: self._die(-9, fault))
            return
        for j, (qid, payload) in enumerate(out['puts']):
            w.at(self._dur * (j + 1.) / (k + .5),
                 lambda q=_queues[qid], p=payload: self._put(q, p))
        w.at(self._dur, self._end_main)

    def _execute(self, w, seed):
        """Runs the target in a real forked child; returns what it did."""
        global CHILD
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                CHILD = Child(self, core.Choices(seed), self._t0 + self._dur)
                err = None
                try:
                    if w.child_setup is not None:
                        w.child_setup(CHILD)
                    self.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (
                        0 if e.code is None else 1)
                except HarnessError:
                    err = traceback.format_exc()
                except Violation as e:
                    err = ('violation', e.kind, e.msg)
                except BaseException:
                    code = 1
                    CHILD.report.append(('exception', traceback.format_exc()))
                data = pickle.dumps({'puts': CHILD.puts, 'code': code,
                                     'report': CHILD.report, 'err': err})
                while data:
                    data = data[os.write(wr, data):]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        chunks = []
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if not chunks:
            # the target ended its process without coming back (os._exit)
            return {'puts': [], 'code': os.waitstatus_to_exitcode(st),
                    'report': [], 'err': None}
        out = pickle.loads(b''.join(chunks))
        if isinstance(out['err'], tuple):
            raise w._violation(out['err'][1], out['err'][2])
        if out['err']:
            raise HarnessError('in a worker: ' + out['err'])
        return out

    # Simulated life

    def _put(self, q, payload):
        if self._state != 'running':
            return
        self._buffer.append((q, payload))
        delay = 0.
        if WORLD.slow_feeders:
            delay = WORLD.ch.pick([0., .05, 1., 4.])
            if delay:
                WORLD.ctx.fault('slow-delivery')
        if self._fault == 'kill-unflushed' and \
                len(self._out['puts']) and payload is self._out['puts'][-1][1]:
            WORLD.at(delay, lambda: self._die(-9, self._fault))
            return
        WORLD.at(delay + 1e-3, self._feed)

    def _feed(self):
        """The feeder thread tries to write its next item."""
        w = WORLD
        if self._state != 'running' or self._writing or not self._buffer:
            return
        q, payload = self._buffer[0]
        if q._owner is not None:
            q._waiting.append(self)
            return
        q._owner = self
        self._writing = True
        if self._fault == 'kill-holding-lock':
            w.at(1e-3, lambda: self._die(-9, self._fault))
            return
        self._write(q, payload)

    def _write(self, q, payload):
        w = WORLD
        if self._state != 'running':
            return
        size = len(payload) + 4
        if size > w.capacity and not q._items:
            # larger than the pipe: flows while the reader reads
            q._partial = self
            w.ctx.probe('message-larger-than-pipe')
            if self._fault == 'kill-mid-write':
                w.at(.02, lambda: self._die(-9, self._fault))
                return
            w.at(.05, lambda: self._written(q, payload))
        elif q._used + size <= w.capacity:
            # (a write of up to PIPE_BUF bytes is atomic)
            if self._fault == 'kill-mid-write' and size <= w.capacity // 16:
                w.at(1e-3, lambda: self._die(-9, 'kill-holding-lock'))
                return
            if self._fault == 'kill-mid-write':
                q._partial = self
                w.at(.02, lambda: self._die(-9, self._fault))
                return
            w.at(1e-3, lambda: self._written(q, payload))
        else:
            w.ctx.probe('pipe-full')
            q._blocked = (self, payload)

    def _written(self, q, payload):
        if self._state != 'running':
            return
        q._partial = None
        q._items.append(payload)
        q._used += len(payload) + 4
        q._owner = None
        self._writing = False
        self._buffer.pop(0)
        WORLD.ctx.event('worker', self._index, 'delivered t={:.3f}'.format(
            WORLD.now))
        if self._fault == 'kill-after-flush' and not self._buffer:
            self._die(-9, self._fault)
        waiting, q._waiting = q._waiting, []
        if waiting:
            i = WORLD.ch.draw(len(waiting))
            waiting.insert(0, waiting.pop(i))
        for p in waiting:
            WORLD.at(1e-3, p._feed)
        if self._state == 'running':
            if self._buffer:
                WORLD.at(1e-3, self._feed)
            else:
                self._maybe_exit()

    def _end_main(self):
        if self._state == 'running':
            self._main_done = True
            self._maybe_exit()

    def _maybe_exit(self):
        if self._main_done and not self._buffer:
            delay = 1e-3
            if WORLD.slow_feeders:
                delay = WORLD.ch.pick([1e-3, .05, 1.])
            WORLD.at(delay, self._exit_now)

    def _exit_now(self):
        if self._state == 'running':
            self._state = 'exited'
            self._exit = self._out['code']
            WORLD.ctx.event('worker', self._index, 'exits {} t={:.3f}'.format(
                self._exit, WORLD.now))

    def _die(self, code, kind=None):
        if self._state == 'running':
            self._state = 'exited'
            self._exit = code
            if kind is not None:
                WORLD.ctx.fault(kind)
            WORLD.ctx.event('worker', self._index, 'killed {} t={:.3f}'.format(
                kind, WORLD.now))

    # Parent's view

    def is_alive(self):
        WORLD.op()
        return self._state == 'running'

    @property
    def exitcode(self):
        return self._exit

    @property
    def pid(self):
        return None if self._index is None else 5000 + self._index

    ident = pid

    def join(self, timeout=None):
        assert self._state != 'new', 'can only join a started process'
        WORLD.wait_until(lambda: self._state == 'exited', timeout,
                         'join of worker {}'.format(self._index))

    def terminate(self):
        WORLD.op()
        self._die(-15)

    def kill(self):
        WORLD.op()
        self._die(-9)

    def close(self):
        if self._state == 'running':
            raise ValueError('Cannot close a process while it is still running')


_queues = {}


class Queue:

    def __init__(self, maxsize=0, ctx=None):
        if WORLD is None:
            raise HarnessError('queue created outside the simulated world')
        self._id = len(_queues)
        _queues[self._id] = self
        self._items = []
        self._used = 0
        self._owner = None
        self._waiting = []
        self._blocked = None
        self._partial = None

    def put(self, obj, block=True, timeout=None):
        payload = pickle.dumps(obj)
        if CHILD is not None:
            CHILD.puts.append((self._id, payload))
        else:
            WORLD.op()
            self._items.append(payload)
            self._used += len(payload) + 4

    def put_nowait(self, obj):
        self.put(obj, False)

    def _readable(self):
        return bool(self._items) or self._partial is not None

    def get(self, block=True, timeout=None):
        if CHILD is not None:
            raise HarnessError('queue read in a worker')
        w = WORLD
        if block:
            if not w.wait_until(self._readable, timeout, 'result queue'):
                raise threads.sim_queue.Empty
        else:
            w.op()
            if not self._readable():
                raise threads.sim_queue.Empty
        if not self._items:
            writer = self._partial
            w.ctx.probe('read-of-partial-message')
            # recv() of a message whose sender is still writing it
            while not self._items:
                if writer._state != 'running' or not w.events:
                    raise w._violation(
                        'hang', 'the caller is blocked reading a result whose '
                        'worker was killed in the middle of writing it',
                        'killed-mid-write')
                w._step()
        payload = self._items.pop(0)
        self._used -= len(payload) + 4
        if self._blocked is not None:
            p, item = self._blocked
            self._blocked = None
            w.at(1e-3, lambda: p._write(self, item))
        w.idle_ops = 0
        return pickle.loads(payload)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        WORLD.op()
        return not self._readable()

    def qsize(self):
        WORLD.op()
        return len(self._items)

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


sim_multiprocessing = types.ModuleType('multiprocessing')
sim_multiprocessing.Process = Process
sim_multiprocessing.Queue = Queue
sim_multiprocessing.SimpleQueue = Queue


def _cpu_count():
    if WORLD is None:
        raise HarnessError('cpu_count outside the simulated world')
    return WORLD.cpus


sim_multiprocessing.cpu_count = _cpu_count
sim_multiprocessing.get_context = lambda method=None: sim_multiprocessing
sim_multiprocessing.active_children = lambda: list(WORLD.alive())
sim_multiprocessing.current_process = lambda: types.SimpleNamespace(
    name='MainProcess', pid=os.getpid(), daemon=False)
