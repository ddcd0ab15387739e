"""C14: a solver run yields the solver's policy or an error."""
import os
import tempfile

import numpy as np

from sim import fsio, loader, models, popen, solver
from sim.core import InjectedFault

ID = 'C14'
RUNS = {'quick': 12000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of the external solver, its options, '
             'exit and output files, and of storage; oracle is a strict '
             'reading of the bytes the solver left')
RULE = ('random model and options, sequences of runs on the same model, '
        'solver failing to start, failing, killed, leaving missing, '
        'truncated (at any byte) or inconsistent files, storage failing '
        'while the model is written or the output read; non-trivial: the '
        'solver was started')
COMPONENTS = {
    'real': ['task_models.lib.pomdp (POMDP.solve and below, GraphPolicy)',
             'tempfile and shutil on a scratch directory', 'io text and '
             'buffer layers', 'stdlib subprocess above Popen'],
    'stub': ['pomdp-solve', 'Popen', 'raw file layer']}
ASSUMPTIONS = ['the solver writes NAME.alpha and NAME.pg in its working '
               'directory, in the format of its documentation',
               'output truncated so that it still is a consistent policy '
               'cannot be told from the solver\'s']
PROBES = ('policy', 'rejected', 'still-consistent', 'no-transitions',
          'grid', 'pairwise', 'seed', 'no-seed', 'time-limit', 'horizon',
          'after-failure', 'tied-start')
FAULTS = tuple('solver-' + k for k in solver.ENDINGS) + tuple(
    'output-' + k for k in solver.OUTPUTS) + (
    'disk-enospc', 'disk-eio', 'disk-open-denied', 'disk-close-error',
    'disk-short-writes', 'disk-read-eio', 'disk-read-open-denied')

DISK = ('enospc', 'eio', 'open-denied', 'close-error', 'short-writes',
        'read-eio', 'read-open-denied')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    old_tmp = tempfile.tempdir
    tempfile.tempdir = root
    m, arrays = models.random_pomdp(ctx)
    names = (list(m.states), list(m.actions), list(m.observations))
    before = m.to_dict()
    sv = solver.Solver(ctx, tuple(len(x) for x in names))
    failed_before = False
    started = 0
    try:
        with fsio.FaultFS(ctx, root) as fs, \
                popen.Programs(ctx, pomdp_solve=sv):
            for i in range(ch.between(1, 3)):
                sv.reset()
                sv.ending = sv.output = None
                fault = ch.weighted([(4, None), (2, 'ending'), (5, 'output'),
                                     (2, 'disk')])
                if fault == 'ending':
                    sv.ending = ch.pick(solver.ENDINGS)
                elif fault == 'output':
                    sv.output = ch.pick(solver.OUTPUTS)
                disk = None
                if fault == 'disk':
                    disk = ch.pick(DISK)
                    fs.arm(disk, ch.pick([0, 1, ch.draw(300), 10000]))
                opts = random_options(ch)
                ctx.event('solve', i, opts, sv.ending, sv.output, disk)
                try:
                    got, err = m.solve(**opts), None
                except Exception as e:
                    got, err = None, e
                fired = disk is not None and fs.fired and \
                    disk != 'short-writes'
                fs.disarm()
                ctx.event('outcome', type(err).__name__)
                left = sorted(os.listdir(root))
                ctx.check(not left, 'left-behind', lambda: 'the run left {} '
                          'behind (outcome {!r})'.format(left, err))
                started += sv.called
                ctx.check(sv.called <= 1, 'started', lambda: 'the solver is '
                          'started {} times'.format(sv.called))
                if sv.called and sv.rc != 'not started':
                    check_options(ctx, sv, opts)
                want = None
                if sv.called and sv.rc == 0 and not fired:
                    want = solver.read_output(*(sv.left + sv.shape))
                if want is None:
                    ctx.probe('rejected')
                    ctx.check(got is None, 'accepted', lambda: 'the solver '
                              'ended with {} leaving {!r} and {!r} and a '
                              'policy is returned: {}'.format(
                                  sv.rc, sv.left[0], sv.left[1],
                                  got.to_dict()))
                    ctx.check(sv.called or fired or err is not None,
                              'not-started', 'the solver is not started')
                    failed_before = True
                    continue
                if sv.output is not None:
                    ctx.probe('still-consistent')
                ctx.check(err is None, 'refused', lambda: 'the solver '
                          'succeeded, leaving {!r} and {!r}, and {!r} was '
                          'raised'.format(sv.left[0], sv.left[1], err))
                if failed_before:
                    ctx.probe('after-failure')
                check_policy(ctx, got, want, names, arrays[3])
    finally:
        tempfile.tempdir = old_tmp
        import shutil
        shutil.rmtree(root, ignore_errors=True)
    ctx.check(m.to_dict() == before, 'model-changed', 'solving changed the '
              'model')
    ctx.sim_time += 3. * started
    ctx.nontrivial = started > 0
    ctx.sample = {'shape': sv.shape, 'options': opts, 'ending': sv.ending,
                  'output': sv.output}


def random_options(ch):
    d = {}
    if ch.chance(.5):
        d['timeout'] = ch.pick([1, 10, 3600, 0])
    if ch.chance(.5):
        d['n_iterations'] = ch.pick([100, 1, 7, 0])
    if ch.chance(.5):
        d['seed'] = ch.pick([0, 12, 4000000000])
    m = ch.pick([None, 'incprune', 'grid'])
    if m is not None:
        d['method'] = m
    if ch.chance(.4):
        d['grid_type'] = ch.pick(['simplex', 'pairwise'])
    if ch.chance(.1):
        d['verbose'] = False
    return d


def check_options(ctx, sv, opts):
    ctx.check(sv.opt_error is None, 'options', lambda: 'the solver refuses '
              'its command line: ' + sv.opt_error)
    o = sv.opts

    def same(name, value):
        ctx.check(o.get(name) == value, 'options', lambda: 'the solver is '
                  'run with {} for -{} where {} was requested ({})'.format(
                      o.get(name), name, value, opts))

    same('time_limit', None if opts.get('timeout') is None else
         str(opts['timeout']))
    same('horizon', None if opts.get('n_iterations') is None else
         str(opts['n_iterations']))
    if opts.get('seed') is not None:
        ctx.probe('seed')
        same('rand_seed', str(opts['seed']))
    else:
        ctx.probe('no-seed')
    if opts.get('method') == 'grid':
        ctx.probe('grid')
        same('method', 'grid')
        want = opts.get('grid_type') or 'simplex'
        if want == 'pairwise':
            ctx.probe('pairwise')
        ctx.check((o.get('fg_type') or 'simplex') == want, 'options', lambda:
                  'grid type {} instead of {}'.format(o.get('fg_type'), want))
    else:
        ctx.check((o.get('method') or 'incprune') == 'incprune', 'options',
                  lambda: 'method {} was not requested'.format(o['method']))
    if 'timeout' in opts:
        ctx.probe('time-limit')
    if 'n_iterations' in opts:
        ctx.probe('horizon')


def check_policy(ctx, got, want, names, start):
    actions, trans, values = want
    ctx.probe('policy')
    if all(x is None for t in trans for x in t):
        ctx.probe('no-transitions')
    acts = [names[1][a] for a in actions]
    ctx.check(list(got.actions) == acts, 'actions', lambda: 'actions {} '
              'instead of {}'.format(got.actions, acts))
    ctx.check(list(got.observations) == names[2], 'observations', lambda:
              'observations {}'.format(got.observations))
    t = [list(r) for r in np.asarray(got.transitions).tolist()]
    ctx.check(t == trans, 'transitions', lambda: 'transitions {} instead of '
              '{}'.format(t, trans))
    v = np.asarray(got.values).tolist()
    ctx.check(v == values, 'values', lambda: 'values {} instead of {}'.format(
        v, values))
    vals = [sum(x * p for x, p in zip(row, start)) for row in values]
    best = max(vals)
    if sum(x >= best - 1e-9 for x in vals) > 1:
        ctx.probe('tied-start')
    ctx.check(vals[int(got.init)] >= best - 1e-9, 'start-node', lambda: 'the '
              'start node {} has value {} for the start belief, the best '
              'is {}'.format(got.init, vals[int(got.init)], best))
    # what it does, as seen by who executes it
    for n in range(len(actions)):
        ctx.check(got.get_action(n) == acts[n], 'decision', 'action')
        for k, o in enumerate(names[2]):
            x = got.next(n, o)
            ctx.check(x == trans[n][k], 'decision', lambda: 'node {} goes to '
                      '{} instead of {} on {}'.format(n, x, trans[n][k], o))
