"""C11: every repetition is independently seeded and reproducible."""
import pickle

import numpy as np

from checks import c09
from sim import loader, procs

ID = 'C11'
RUNS = {'quick': 3000, 'thorough': 20000}
TECHNIQUE = ('deterministic simulation of worker processes under different '
             'speeds, processors and delivery orders; oracle compares the '
             'random streams between repetitions and between schedules')
RULE = ('one parent seed and number of repetitions, run in two or three '
        'simulated worlds that differ in processors, run times, delays and '
        'costs, and split into several calls; non-trivial: three or more '
        'repetitions and different schedules')
COMPONENTS = c09.COMPONENTS
ASSUMPTIONS = ['streams are compared on their first 40 words of 32 bits']
PROBES = ('worlds', 'split-calls', 'order-differs')
FAULTS = ('slow-delivery', 'slow-worker')

WORDS = 40


def setup():
    loader.load()


def stream():
    return [int(x) for x in np.random.randint(0, 1 << 32, size=WORDS,
                                              dtype=np.uint64)]


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    seed = ch.draw(1 << 20)
    n = ch.between(1, 9)
    # some draws by the parent beforehand
    before = ch.draw(5)
    outcomes = []
    for world in range(ch.between(2, 3)):
        np.random.seed(seed)
        np.random.random(before)
        split = world > 0 and n > 1 and ch.chance(.4)
        with c09.random_world(ctx) as w:
            ctx.probe('worlds')
            if split:
                k = ch.between(1, n - 1)
                ctx.probe('split-calls')
                got = ns.multiprocess.repeat(stream, k)
                got += ns.multiprocess.repeat(stream, n - k)
            else:
                got = ns.multiprocess.repeat(stream, n)
            ctx.event('world', world, 'cpus', w.cpus, 'split', split,
                      'first', [g[0] for g in got])
        state = pickle.dumps(np.random.get_state())
        outcomes.append((got, state, w.cpus, split))
        ctx.check(len(got) == n, 'results', lambda: '{} results for {} '
                  'repetitions'.format(len(got), n))
        for i in range(n):
            for j in range(i):
                common = set(got[i]) & set(got[j])
                ctx.check(len(common) < 3, 'shared-stream', lambda: 'two '
                          'repetitions share {} of their first {} random '
                          'words'.format(len(common), WORDS))
    ref = outcomes[0]
    for got, state, cpus, split in outcomes[1:]:
        ctx.check(sorted(got) == sorted(ref[0]), 'not-reproducible', lambda:
                  'with the same parent seed, {} processors{} give other '
                  'results than {} processors'.format(
                      cpus, ' in two calls' if split else '', ref[2]))
        ctx.check(state == ref[1], 'parent-state', lambda: 'with the same '
                  'parent seed, {} repetitions leave the parent in another '
                  'random state on {} processors{} than on {}'.format(
                      n, cpus, ' in two calls' if split else '', ref[2]))
        if got != ref[0]:
            ctx.probe('order-differs')
    ctx.nontrivial = n >= 3
    ctx.sample = {'seed': seed, 'n': n, 'cpus': [o[2] for o in outcomes]}
