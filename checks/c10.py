"""C10: a failing worker surfaces as an error, never a short or hung result."""
import pickle

import numpy as np

from checks import c09
from sim import loader, procs

ID = 'C10'
RUNS = {'quick': 5000, 'thorough': 40000}
TECHNIQUE = ('deterministic simulation of worker processes with crashes at '
             'every stage of a result\'s delivery; bounded-time and '
             'complete-or-error oracle')
RULE = ('as C09, with one or two workers failing: raising, leaving with a '
        'status, ending abruptly, killed before the result, with the result '
        'still in their buffer, while holding the queue lock, in the middle '
        'of writing, after delivery, or impossible to start; non-trivial: a '
        'worker failed before its result was delivered')
COMPONENTS = c09.COMPONENTS
ASSUMPTIONS = ['a worker killed after its result was completely delivered may '
               'or may not count as a failure',
               'bounded time: 200 simulated seconds after the last event, '
               'with run times of at most 60s']
PROBES = ('raised', 'completed', 'first-worker', 'last-worker',
          'several-failures')
FAULTS = ('raise', 'exit-status', 'abrupt-end', 'start-failure',
          'slow-delivery') + procs.KILL_KINDS

FAILURES = ('raise', 'exit-status', 'abrupt-end', 'unpicklable',
            'start-failure') + procs.KILL_KINDS


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    with c09.random_world(ctx) as w:
        n = ch.between(1, 10)
        inner = c09.Job(ctx, w)
        own = {}
        for _ in range(2 if ch.chance(.25) else 1):
            i = ch.draw(n)
            kind = ch.pick(FAILURES)
            if kind in ('raise', 'exit-status', 'abrupt-end', 'unpicklable'):
                own[i] = kind
                w.plan.pop(i, None)
            else:
                w.plan[i] = kind
                own.pop(i, None)
        kinds = dict(w.plan)
        kinds.update(own)
        ctx.event('repeat', n, 'cpus', w.cpus, 'failures', sorted(
            kinds.items()))
        if len(kinds) > 1:
            ctx.probe('several-failures')
        if 0 in kinds:
            ctx.probe('first-worker')
        if n - 1 in kinds:
            ctx.probe('last-worker')

        def job():
            i = procs.CHILD.proc._index if procs.CHILD is not None else None
            f = own.get(i)
            if f == 'raise':
                procs.CHILD.report.append(('failed', f))
                raise [RuntimeError, ValueError, KeyboardInterrupt,
                       ZeroDivisionError][i % 4]('worker error')
            if f == 'exit-status':
                procs.CHILD.report.append(('failed', f))
                raise SystemExit(1 + i % 3)
            if f == 'abrupt-end':
                import os
                os._exit(3 + i % 4)
            if f == 'unpicklable':
                procs.CHILD.report.append(('failed', f))
                raise SystemExit(0)     # ends well, without a result
            return inner()

        try:
            got = ns.multiprocess.repeat(job, n)
            err = None
        except Exception as e:
            got, err = None, e
        ctx.event('outcome', type(err).__name__, 't={:.3f}'.format(w.now))
        for i, p in enumerate(w.procs):
            if own.get(i) and i < len(w.procs):
                ctx.fault({'unpicklable': 'exit-status'}.get(own[i], own[i]))
        if err is not None:
            ctx.probe('raised')
            fatal = [k for k in kinds.values()]
            ctx.check(fatal, 'spurious', lambda: 'no worker failed but '
                      '{!r} was raised'.format(err))
        else:
            ctx.probe('completed')
            bad = [i for i, k in kinds.items() if k != 'kill-after-flush']
            made = c09.produced(w, inner)
            back = sorted(pickle.dumps(r) for r in got)
            ctx.check(not bad or len(got) == n and back == sorted(made),
                      'swallowed', lambda: 'worker(s) {} failed before their '
                      'result was delivered and {} results were returned '
                      'without an error'.format(
                          {i: kinds[i] for i in bad}, len(got)))
            ctx.check(not bad, 'swallowed', lambda: 'worker(s) {} failed and '
                      'the call returned'.format({i: kinds[i] for i in bad}))
            ctx.check(back == sorted(made) and len(got) == n, 'results',
                      lambda: '{} results for {} repetitions'.format(
                          len(got), n))
        ctx.check(w.now < 2000., 'late', lambda: 'the call took {:.0f} '
                  'simulated seconds'.format(w.now))
        ctx.nontrivial = err is not None
        ctx.sample = {'n': n, 'cpus': w.cpus, 'failures': {
            str(k): v for k, v in kinds.items()}, 'error': repr(err)}
