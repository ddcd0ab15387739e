"""C24: the reported age of a process is its age on the system clock."""
import os
from datetime import timedelta

import numpy as np

from sim import loader, popen
from sim.core import HarnessError

ID = 'C24'
RUNS = {'quick': 15000, 'thorough': 200000}
TECHNIQUE = ('deterministic simulation of the process table, the system clock '
             'and the external `ps` program, with failures of the query; '
             'oracle is the age on the simulated clock')
RULE = ('several simulated processes started at random times, history of '
        'waiting (seconds to months, up to unit boundaries), clock jumps, '
        'queries of the current or of another process, processes that end, '
        'and failures of ps; non-trivial: a query was answered with an age '
        'of at least a minute')
COMPONENTS = {
    'real': ['task_models.utils.multiprocess.get_process_elapsed_time',
             'stdlib subprocess above Popen'],
    'stub': ['process table', 'clock', 'ps (procps output format)', 'Popen']}
ASSUMPTIONS = ['ps prints elapsed times as procps and POSIX specify']
PROBES = ('minutes', 'hours', 'days', 'many-days', 'boundary', 'own-process',
          'other-process', 'ended-process', 'seconds')
FAULTS = ('ps-missing', 'ps-no-memory', 'ps-killed', 'ps-error',
          'ps-error-after-output', 'ps-nothing-printed', 'clock-jump')

UNITS = [1, 60, 3600, 86400]


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    query = ns.multiprocess.get_process_elapsed_time
    now = [1.7e9 + ch.unit()]
    me = os.getpid()
    others = [4000 + 7 * i for i in range(ch.between(1, 3))]
    started = {}
    for p in ['me'] + others:
        started[p] = now[0] - random_age(ch)

    def age(pid):
        t0 = started.get('me' if pid == me else pid)
        return None if t0 is None else max(0., now[0] - t0)

    ps = popen.Ps(ctx, age)
    first = now[0]
    answered = []
    with popen.Programs(ctx, ps=ps):
        for _ in range(ch.between(1, 8)):
            what = ch.weighted([(6, 'query'), (3, 'wait'), (1, 'jump'),
                                (1, 'end'), (2, 'fault')])
            if what == 'wait':
                now[0] += random_age(ch)
            elif what == 'jump':
                # the clock is set; start times read from it stay
                now[0] += ch.pick([1, -1]) * random_age(ch)
                ctx.fault('clock-jump')
            elif what == 'end':
                p = ch.pick(others)
                started.pop(p, None)
            elif what == 'fault':
                ps.fault = ch.pick(['error', 'missing', 'no-memory', 'killed',
                                    'error-after-output', 'nothing-printed'])
            if what not in ('query', 'fault'):
                ctx.event(what, '%.1f' % (now[0] - first))
                continue
            p = ch.pick([None] + others)
            fails = ps.fault is not None
            want = age(me if p is None else p)
            n = len(ps.read)
            try:
                got = query() if p is None and ch.chance(.8) else query(p)
                err = None
            except Exception as e:
                got, err = None, e
            ctx.event('query', 'own' if p is None else p, got,
                      type(err).__name__)
            ctx.probe('own-process' if p is None else 'other-process')
            if want is None:
                ctx.probe('ended-process')
            if fails or want is None:
                ctx.check(err is not None, 'no-error', lambda: '{} and {!r} '
                          'was returned'.format(
                              'the query failed' if fails else
                              'the process does not exist', got))
                ps.fault = None
                continue
            ctx.check(err is None, 'error', lambda: 'a process of age {:.1f}s '
                      'made the query raise {!r}'.format(want, err))
            ctx.check(isinstance(got, timedelta), 'type', lambda: 'returned '
                      '{!r}'.format(got))
            v = got.total_seconds()
            ctx.check(want - 1. <= v <= want + 1e-6, 'wrong-age', lambda:
                      'age {:.2f}s reported as {}s'.format(want, v))
            answered.append(v)
            for u, n in ((60, 'minutes'), (3600, 'hours'), (86400, 'days'),
                         (864000, 'many-days')):
                if v >= u:
                    ctx.probe(n)
            if v < 60:
                ctx.probe('seconds')
            if any(int(want) % u in (0, u - 1) for u in UNITS[1:]):
                ctx.probe('boundary')
    ctx.sim_time += max(0., now[0] - first)
    ctx.nontrivial = any(v >= 60 for v in answered)
    ctx.sample = {'ages': answered}


def random_age(ch):
    u = ch.pick(UNITS + [8640000])
    k = ch.pick([0, 1, 1, 2, 23, 59, 9])
    base = u * k
    return max(0., base + ch.pick([0., .5, -1., 1., -.25]) +
               (ch.unit() * u if ch.chance(.5) else 0.))
