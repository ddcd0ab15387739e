"""C12: evaluation records describe the episodes really executed."""
import numpy as np

from checks import c09
from sim import episodes, loader, popen, procs
from sim.core import InjectedFault

ID = 'C12'
RUNS = {'quick': 6000, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of closed-loop episodes and of their '
             'distribution over worker processes, with model failures; oracle '
             'is the log of the policy and model calls really made')
RULE = ('random task, preferences and failure rates, planner, scripted or '
        'arbitrary policy, discount and maximum horizon; several evaluations '
        'of the same policy, some aborted by model errors, or evaluations '
        'repeated over simulated worker processes; non-trivial: an episode '
        'of at least two transitions')
COMPONENTS = {
    'real': ['task_models.evaluation', 'task_models.supportive',
             'task_models.policy', 'task_models.lib.pomcp',
             'task_models.utils.multiprocess'],
    'stub': ['multiprocessing.Process and Queue', 'time', 'ps',
             'process ages', 'model failures']}
ASSUMPTIONS = ['a final state is the last value of the task feature '
               '(any set of states for a matrix model)',
               'returns agree to 1e-7 relative']
PROBES = ('final-state', 'horizon-reached', 'empty-episode', 'undiscounted',
          'policy-random', 'policy-scripted', 'policy-pomcp',
          'policy-matrix-random', 'policy-matrix-pomcp', 'processes',
          'after-abort', 'logged')
FAULTS = ('model-error', 'slow-worker', 'slow-delivery', 'ps-error')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    kind = ch.pick(['random', 'pomcp', 'scripted', 'matrix-random',
                    'matrix-pomcp'])
    ctx.probe('policy-' + kind)
    log = episodes.Log()
    log.base = ch.pick([3., 100., 5000., 1e5])
    model = (episodes.make_matrix_model(ctx, log) if kind.startswith('matrix')
             else episodes.make_model(ctx, log, stool=kind == 'scripted'))
    policy = episodes.Spy(episodes.make_policy(ctx, model, kind), log)
    max_h = ch.pick([5, 1, 0, 30, 12, 2])
    logger = (lambda *a: ctx.probe('logged')) if ch.chance(.3) else None
    if ch.chance(.3):
        return repeated(ctx, ns, log, model, policy, max_h, logger)
    ps = episodes.make_ps(ctx, log)
    longest, aborted = 0, False
    with popen.Programs(ctx, ps=ps):
        for i in range(ch.between(1, 3)):
            log.clear()
            # some use of the policy and model before
            if ch.chance(.3):
                policy.get_action()
            if ch.chance(.2):
                model.sample_transition(0, model.sample_start())
            log.clear()
            discount = ch.pick([True, None, False])
            kwargs = {} if discount is None else {'discount': discount}
            if ch.chance(.2):
                log.fault_in = ch.draw(30)
            if ch.chance(.1):
                ps.fault = 'error'
            ctx.event('evaluate', i, max_h, kwargs)
            try:
                rec = ns.evaluation.simulate_one_evaluation(
                    model, policy, max_horizon=max_h, logger=logger, **kwargs)
            except InjectedFault:
                aborted = True
                continue
            except ns.policy.PolicyRunner.UnexpectedObservation:
                ctx.event('script left')
                aborted = True
                continue
            except (ValueError, RuntimeError) as e:
                # a belief that lost the history
                ctx.check(log.depth == 0, 'harness', 'unbalanced')
                ctx.check(log.entries and log.entries[-1][0] == 'step' and
                          kind.endswith('pomcp'), 'raised', lambda: 'the evaluation '
                          'raised {!r}'.format(e))
                aborted = True
                continue
            except Exception as e:
                import subprocess
                ctx.check(isinstance(e, (subprocess.CalledProcessError,)),
                          'raised', lambda: 'the evaluation raised {!r}'.format(
                              e))
                ps.fault = None
                continue
            finally:
                log.fault_in = None
            if aborted:
                ctx.probe('after-abort')
            if discount is False:
                ctx.probe('undiscounted')
            ctx.check(isinstance(rec, dict) and isinstance(
                rec.get('actions'), (list, tuple, np.ndarray)), 'record',
                      lambda: 'not a record: {}'.format(rec))
            n = len(rec['actions'])
            longest = max(longest, n)
            ctx.event('record', n, rec['return'], rec['simulator-calls'])
            bad = episodes.judge(
                model, rec, log.entries, log.calls, log.age(), max_h,
                1. if discount is False else model.discount)
            ctx.check(bad is None, *(bad or ('', '')))
            ctx.probe('final-state' if rec['states'] and episodes.is_final(
                model, rec['states'][-1]) else 'horizon-reached')
            if n == 0:
                ctx.probe('empty-episode')
    ctx.sim_time += log.age() - log.base
    ctx.nontrivial = longest >= 2
    ctx.sample = {'policy': kind, 'horizon': max_h, 'longest': longest,
                  'discount': model.discount}


def repeated(ctx, ns, log, model, policy, max_h, logger):
    ch = ctx.ch
    ctx.probe('processes')
    n = ch.between(1, 6)
    ps = episodes.make_ps(ctx, log)
    lose = ns.policy.PolicyRunner.UnexpectedObservation
    with c09.random_world(ctx) as w, popen.Programs(ctx, ps=ps):

        def child_setup(child):
            log.clear()
            log.base = 17. + 13. * child.proc._index
            child.report.append(log)

        w.child_setup = child_setup
        kwargs = {'max_horizon': max_h}
        ctx.event('evaluate', n, max_h)
        try:
            recs = ns.evaluation.evaluate(model, policy, n, logger=logger,
                                          **kwargs)
        except RuntimeError as e:
            # legitimate only if an evaluation itself failed
            failed = [p for p in w.procs if p._out['code'] != 0]
            ctx.check(failed, 'spurious', lambda: 'no evaluation failed and '
                      '{!r} was raised'.format(e))
            bad = [x for p in failed for x in p.report
                   if isinstance(x, tuple) and not any(
                       t in x[1] for t in ('Impossible to sample',
                                           lose.__name__))]
            ctx.check(not bad, 'raised', lambda: 'an evaluation failed with '
                      + bad[0][1])
            ctx.event('an evaluation left its policy')
            return
        ctx.event('records', len(recs))
    ctx.check(len(recs) == n, 'records', lambda: '{} records for {} '
              'evaluations'.format(len(recs), n))
    left = list(recs)
    last = None
    for p in w.procs:
        lg = p.report[0]
        for i, rec in enumerate(left):
            bad = episodes.judge(model, rec, lg.entries, lg.calls, lg.age(),
                                 max_h, model.discount)
            if bad is None:
                left.pop(i)
                break
            if last is None or bad[0] != 'record':
                last = bad
        else:
            ctx.violate('records-' + (last[0] if last else 'missing'),
                        'no record describes the episode of worker {}: {}'
                        .format(p._index, last))
    ctx.check(not left, 'records', lambda: '{} records describe no episode'
              .format(len(left)))
    ctx.nontrivial = n > 1 and any(len(r['actions']) >= 2 for r in recs)
    ctx.sample = {'n': n, 'horizon': max_h, 'cpus': w.cpus,
                  'lengths': [len(r['actions']) for r in recs]}
