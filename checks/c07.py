"""C07: search statistics are exactly the backed-up returns of simulations."""
import numpy as np

from sim import htm, loader, planner, planning
from sim.core import InjectedFault

ID = 'C07'
RUNS = {'quick': 7000, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of searches aborted by model errors, '
             'with foreground or background exploration; oracle is an '
             'executable reference tree fed with the observed transitions')
RULE = ('random model (matrix model or supportive-task model), horizon kind '
        'and length, belief type, node sharing, rollouts, exploration, '
        'program of choices, steps and resets, errors of the model at any '
        'call, synchronous or background search; the whole tree is compared '
        'with the reference after every operation; non-trivial: at least ten '
        'simulations and two operations')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP',
             'task_models.supportive (model and horizon)',
             'task_models.evaluation.FinishedOrNTransitionsHorizon',
             'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time']}
ASSUMPTIONS = ['values agree to 1e-9 relative',
               'a simulation aborted by a model error may leave new nodes '
               'without visits']
PROBES = ('simulations', 'aborted-simulations', 'horizon-int',
          'horizon-transitions', 'horizon-finished', 'horizon-htm',
          'ended-in-tree', 'skipped-branch', 'deep', 'shared', 'rollouts>1',
          'after-reset', 'node-compared')
FAULTS = ('model-error', 'stall')


def setup():
    loader.load()


def run(ctx):
    kind = ctx.ch.pick(['sync', 'sync', 'supportive', 'async'])
    if kind == 'async':
        with planning.random_kernel(ctx) as k:
            drive(ctx, PlannerH(ctx, True), k)
    elif kind == 'supportive':
        drive(ctx, SupportiveH(ctx), None)
    else:
        drive(ctx, PlannerH(ctx, False), None)


class PlannerH(planning.PlannerRun):
    """Plain horizons, given as an integer or a generator."""

    def __init__(self, ctx, asynchronous):
        planning.PlannerRun.__init__(self, ctx, asynchronous, max_h=5,
                                     rare=ctx.ch.chance(.2))
        self.kind = 'int' if ctx.ch.chance(.4) else 'transitions'

    def make_horizon(self):
        if self.kind == 'int':
            return self.h, planner.RefHorizon('transitions', self.h)
        return planning.PlannerRun.make_horizon(self)


class SupportiveH(planning.PlannerRun):
    """Supportive-task model with the horizons written for it."""

    def __init__(self, ctx):
        def make_model(p):
            return htm.recording_supportive(ctx, p.rec, max_leaves=4)

        planning.PlannerRun.__init__(self, ctx, False, belief='particle',
                                     make_model=make_model, max_h=6)
        # few actions are enough to walk the task, keep searches short
        self.kind = ctx.ch.pick(['finished', 'htm', 'transitions'])
        self.iterations = ctx.ch.between(1, 12)

    def make_horizon(self):
        m = self.model
        ev, sup = self.ns.evaluation, self.ns.supportive
        gen = {'finished': ev.FinishedOrNTransitionsHorizon,
               'htm': sup.NHTMHorizon,
               'transitions': self.ns.pomcp.NTransitionsHorizon}[self.kind]
        n = len(m.preferences) + 1 + len(m.objects)

        class Shape:
            shift = n
            final_htm = len(m.htm_nodes) + 1

        return (planner.recording_horizon(
            self.ns, self.rec, gen.generator(m, n=self.h)).generator(m),
            planner.RefHorizon(self.kind, self.h, Shape))


def drive(ctx, p, k):
    ch = ctx.ch
    ctx.probe('horizon-' + getattr(p, 'kind', 'transitions'))
    p.build()
    if getattr(p, 'kind', '') == 'int' and not p.plain_requests:
        # built some other way: nothing to observe the horizon through
        ctx.probe('horizon-not-observed')
        return
    if ch.chance(.35):
        p.rec.fault_in = ch.draw(400)
    if p.sharing:
        ctx.probe('shared')
    if p.rollout_it > 1:
        ctx.probe('rollouts>1')

    def compare(tag):
        p.sync_ref()
        ctx.probe('node-compared', p.ref.compare('({})'.format(tag)))

    def judge(tag):
        if k is not None:
            p.runner.execute(compare, tag)
        else:
            compare(tag)

    for _ in range(ch.between(2, 8)):
        what = ch.weighted([(5, 'get'), (3, 'step'), (1, 'reset'),
                            (1, 'idle')])
        if what == 'step' and p.last is None:
            what = 'get'
        if what == 'get':
            p.get_action(ch.pick([None, 2, 5, 20]))
        elif what == 'step':
            p.step(ch.draw(p.n_obs))
        elif what == 'reset':
            p.reset()
            ctx.probe('after-reset')
        elif k is not None:
            k.idle(ch.pick([.015, .2]))
        if ch.chance(.3) and p.rec.fault_in is None:
            p.rec.fault_in = ch.draw(400)
        judge(what)
    n_sims = len(p.sims())
    aborted = sum(1 for s in p.sims() if s.status == 'aborted')
    ctx.probe('simulations', n_sims)
    if aborted:
        ctx.probe('aborted-simulations', aborted)
    if p.ref.ended_in_tree:
        ctx.probe('ended-in-tree', p.ref.ended_in_tree)
    if p.ref.skipped:
        ctx.probe('skipped-branch', p.ref.skipped)
    if p.ref.max_depth >= 3:
        ctx.probe('deep')
    if k is not None:
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
    ctx.nontrivial = n_sims >= 10 and p.ops >= 2
    ctx.sample = {'ops': p.ops, 'simulations': n_sims, 'aborted': aborted,
                  'horizon': getattr(p, 'kind', 'transitions'), 'n': p.h}
    _keep.append(p.runner)


_keep = []
