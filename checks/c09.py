"""C09: repeated runs return exactly one result per requested repetition."""
import pickle

import numpy as np

from sim import loader, procs

ID = 'C09'
RUNS = {'quick': 4500, 'thorough': 40000}
TECHNIQUE = ('deterministic simulation of worker processes, pipes and time; '
             'oracle is the multiset of values the workers really produced')
RULE = ('random number of repetitions and processors, run times, result sizes '
        '(up to several pipe buffers), delays of the delivering threads and '
        'of process exit, cost of the parent\'s own operations; non-trivial: '
        'at least two workers overlapped')
COMPONENTS = {
    'real': ['task_models.utils.multiprocess.RepeatPool',
             'task_models.utils.multiprocess.repeat',
             'memory isolation of workers (real forked children)'],
    'stub': ['multiprocessing.Process and Queue', 'cpu_count', 'pipes',
             'time']}
ASSUMPTIONS = ['the simulated queue keeps per-worker order and makes a '
               'message visible before its worker can exit',
               'every worker finishes']
PROBES = ('message-larger-than-pipe', 'pipe-full', 'read-of-partial-message',
          'more-repetitions-than-processors', 'one-processor', 'none-requested',
          'reused-pool')
FAULTS = ('slow-delivery', 'slow-worker', 'out-of-order-finish')


def setup():
    loader.load()


def random_world(ctx, cpus=None):
    ch = ctx.ch
    w = procs.World(ctx, cpus=ch.between(1, 6) if cpus is None else cpus,
                    op_cost=ch.pick([.01, .0005, .3]),
                    capacity=ch.pick([1 << 16, 1 << 12]),
                    slow_feeders=ch.chance(.5))
    spread = ch.pick([0, 1, 2])

    def durations(i):
        if spread == 0:
            return .5
        d = ch.pick([.001, .5, 3., 60.] if spread == 2 else [.2, .5, .9])
        if d >= 3.:
            ctx.fault('slow-worker')
        return d

    w.durations = durations
    return w


class Job:
    """The repeated function; knows what every repetition produced."""

    def __init__(self, ctx, w):
        ch = ctx.ch
        self.kind = ch.pick(['index', 'size', 'same', 'none', 'record'])
        self.size = ch.pick([10, w.capacity // 3, w.capacity * 2])
        self.inline = []

    def __call__(self):
        c = procs.CHILD
        i = c.proc._index if c is not None else -1 - len(self.inline)
        if self.kind == 'index':
            r = i
        elif self.kind == 'same':
            r = 'same'
        elif self.kind == 'none':
            r = None
        elif self.kind == 'size':
            r = ('%d' % i) * (self.size // 2)
        else:
            r = {'id': i, 'x': np.arange(i % 7 + 1), 'y': [float(i)] * 3}
        if c is not None:
            c.report.append(('ran', pickle.dumps(r)))
        else:
            self.inline.append(pickle.dumps(r))
        return r


def produced(w, job, since=0):
    return [x for p in w.procs[since:] for tag, x in p.report
            if tag == 'ran'] + job.inline


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    with random_world(ctx) as w:
        job = Job(ctx, w)
        reuse = ch.chance(.2)
        pool = ns.multiprocess.RepeatPool(job) if reuse else None
        n = 0
        for _ in range(ch.between(2, 3) if reuse else 1):
            n = ch.between(0, 12)
            since = len(w.procs)
            del job.inline[:]
            ctx.event('repeat', n, 'cpus', w.cpus, 'job', job.kind)
            if n == 0:
                ctx.probe('none-requested')
            got = pool.run(n) if reuse else ns.multiprocess.repeat(job, n)
            ctx.event('got', len(got), 't={:.3f}'.format(w.now))
            made = produced(w, job, since)
            ctx.check(len(made) == n, 'run-count', lambda: 'the function ran '
                      '{} times instead of {}'.format(len(made), n))
            ctx.check(isinstance(got, list), 'result-type', lambda:
                      'returned a {}'.format(type(got)))
            back = sorted(pickle.dumps(r) for r in got)
            ctx.check(back == sorted(made), 'results', lambda: 'returned {} '
                      'results {} where the workers produced {}: {}'.format(
                          len(got), short(got), len(made),
                          short([pickle.loads(x) for x in made])))
            alive = w.alive()
            ctx.check(not alive, 'left-running', lambda: '{} workers are '
                      'still running after the results were returned'.format(
                          len(alive)))
            if n > w.cpus:
                ctx.probe('more-repetitions-than-processors')
        if reuse:
            ctx.probe('reused-pool')
        if w.cpus == 1:
            ctx.probe('one-processor')
        ends = [p._t0 + p._dur for p in w.procs]
        if ends != sorted(ends):
            ctx.fault('out-of-order-finish')
        ctx.check(w.max_alive <= w.cpus, 'too-many', lambda: '{} workers ran '
                  'at once on {} processors'.format(w.max_alive, w.cpus))
        ctx.nontrivial = w.max_alive >= 2
        ctx.sample = {'n': n, 'cpus': w.cpus, 'job': job.kind,
                      'max_alive': w.max_alive, 'reuse': reuse}


def short(l):
    s = repr(l)
    return s if len(s) < 200 else s[:200] + '...'
