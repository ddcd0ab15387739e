"""Closed-loop workloads on the tree-search planner, synchronous or with the
background explorer under the simulated scheduler.  Shared by the checks of
the planner's properties, which each turn on their own oracles.
"""
import gc
import inspect

import numpy as np

from . import loader, planner, threads
from .core import InjectedFault, HarnessError, Violation


class Edges:
    """Marks, among the recorded simulations, a lookup by history."""

    def __init__(self, history):
        self.history = list(history)


def integers(ctx, arrays):
    """Certain probabilities, maybe written as integers."""
    out = list(arrays)
    for i in (0, 1, 3):
        if np.isin(out[i], (0, 1)).all() and ctx.ch.chance(.4):
            ctx.probe('integer-arrays')
            out[i] = out[i].astype(int)
    return tuple(out)


class PlannerRun:

    #: what the oracle of a check needs
    def __init__(self, ctx, asynchronous, belief=None, sharing=None,
                 horizon=None, rare=False, iterations=None, max_h=4, max_s=4,
                 max_a=3, max_o=3, check_selection=False, rollout_max=3,
                 min_o=1, make_model=None, particles=None):
        self.ctx = ctx
        ch = self.ch = ctx.ch
        self.ns = loader.load()
        self.asynchronous = asynchronous
        self.rec = planner.Recorder(ctx)
        np.random.seed(ch.draw(1 << 16))
        if make_model is None:
            self.arrays = planner.random_arrays(ch, max_s=max_s, max_a=max_a,
                                                max_o=max_o, rare=rare,
                                                min_o=min_o)
            self.arrays = integers(ctx, self.arrays)
            self.T, self.O, self.R, self.start, self.discount = self.arrays
            self.n_actions, self.n_states, self.n_obs = self.O.shape
            self.model = planner.recording_model(self.ns, self.rec,
                                                 self.arrays)
        else:
            self.arrays = None
            self.model = make_model(self)
            self.discount = self.model.discount
            self.n_actions = self.model.n_actions
            self.n_states = self.model.n_states
            self.n_obs = self.model.n_observations
        if belief is None:
            belief = ch.pick(['array', 'particle'])
        self.belief = belief
        if sharing is None:
            sharing = belief == 'array' and ch.chance(.4)
        self.sharing = sharing
        self.n_particles = ch.between(2, 8) if particles is None else particles
        self.h = ch.between(1, max_h) if horizon is None else horizon
        self.iterations = ch.between(1, 8) if iterations is None else iterations
        self.relative = ch.chance(.4)
        self.exploration = ch.pick([None, 0., .5, 5., 100.])
        self.rollout_it = ch.between(1, rollout_max)
        self.check_selection = check_selection
        self.history = []       # what the caller believes its history to be
        self.last = None        # chosen action since last step/reset
        self.runner = None
        self.explorer = None
        self.ops = 0
        self._applied = 0
        self._sims_seen = 0
        self.committed = False
        ctx.event('model s={} a={} o={} discount={} belief={} sharing={} h={} '
                  'it={} rel={} expl={} rollouts={} particles={}'.format(
                      self.n_states, self.n_actions, self.n_obs, self.discount,
                      belief, sharing, self.h, self.iterations, self.relative,
                      self.exploration, self.rollout_it, self.n_particles))

    def params(self):
        return dict(iterations=self.iterations, exploration=self.exploration,
                    relative_exploration=self.relative,
                    rollout_it=self.rollout_it, belief_values=self.sharing,
                    belief=self.belief,
                    belief_params=({'n_particles': self.n_particles}
                                   if self.belief == 'particle' else {}),
                    logger=lambda *a, **k: None)

    def make_horizon(self):
        """(argument for the runner, reference horizon)"""
        return (planner.recording_horizon(
            self.ns, self.rec,
            self.ns.pomcp.NTransitionsHorizon.generator(self.model, n=self.h)
        ).generator(self.model), planner.RefHorizon('transitions', self.h))

    def _record_plain_horizons(self):
        """Integer horizons are turned into horizons by the planner itself,
        through this public generator."""
        cls = self.ns.pomcp.NTransitionsHorizon
        orig = cls.generator
        self.plain_requests = []

        def generator(model, n=100):
            self.plain_requests.append(n)
            return planner.recording_horizon(
                self.ns, self.rec, orig(model, n=n)).generator(model)

        self.ctx.patch(cls, 'generator', generator)

    def build(self):
        pomcp = self.ns.pomcp
        hor, ref_hor = self.make_horizon()
        if isinstance(hor, int):
            self._record_plain_horizons()
        # the class of the tree, through a throw-away synchronous runner
        probe = pomcp.POMCPPolicyRunner(self.model, horizon=hor,
                                        **self.params())
        planner.instrument_tree_class(self.rec, type(probe.tree))
        orig_get = type(probe.tree).get_node
        rec = self.rec

        def get_node(tree, history):
            try:
                return orig_get(tree, history)
            finally:
                # a failed update leaves the end of the history out
                rec.sims.append(Edges(self._present(tree, history)))

        self.ctx.patch(type(probe.tree), 'get_node', get_node)
        cls = (pomcp.AsyncPOMCPPolicyRunner if self.asynchronous
               else pomcp.POMCPPolicyRunner)
        if self.asynchronous:
            self.rec.exclusive = True
        self.rec.on_sim_start = self._sim_start
        alpha = self._draw_alpha(type(probe.tree), hor)
        self.runner = cls(self.model, horizon=hor, **self.params())
        expl = self.exploration
        if expl is None:
            expl = 1. if self.relative else 100
        self.ref = planner.RefTree(
            self.fail, self.runner.tree, self.discount, expl, self.relative,
            self.rollout_it, ref_hor, self.n_actions,
            check_selection=self.check_selection)
        if alpha is not None:
            self.ref.ALPHA = alpha
        return self.runner

    def _draw_alpha(self, tree_class, hor):
        """The weight of the last return in the averages is a parameter of
        the trees that the runners leave at its default."""
        alpha = self.ch.pick([None, None, None, 0., .05, .5])
        if alpha is None:
            return None
        orig = tree_class.__init__
        try:
            known = inspect.signature(orig).parameters
        except (TypeError, ValueError):
            return None
        if 'node_params' not in known:
            return None

        use = [True]

        def init(tree, *args, **kwargs):
            if use[0]:
                kwargs['node_params'] = {'alpha': alpha}
            orig(tree, *args, **kwargs)

        self.ctx.patch(tree_class, '__init__', init)
        try:
            self.ns.pomcp.POMCPPolicyRunner(self.model, horizon=hor,
                                            **self.params())
        except TypeError:   # its nodes take no such parameter
            use[0] = False
            return None
        self.ctx.probe('drawn-averaging-weight')
        self.ctx.event('averaging weight', alpha)
        return alpha

    def fail(self, kind, msg):
        k = threads.KERNEL
        if k is not None and k.me() is not None:
            k.fail(Violation(kind, msg))
        self.ctx.violate(kind, msg)

    # Observation of simulations

    def _sim_start(self, sim):
        sim.op = self.current_op
        sim.stable = self.op_done        # no caller operation in progress
        sim.expect = (self.expect_node, self.expect_action)

    current_op = None
    op_done = False
    expect_node = None
    expect_action = None

    def sims(self, since=0):
        return [s for s in self.rec.sims[since:] if not isinstance(s, Edges)]

    def sync_ref(self):
        """Applies to the reference everything that happened so far."""
        while self._applied < len(self.rec.sims):
            s = self.rec.sims[self._applied]
            self._applied += 1
            if isinstance(s, Edges):
                self._add_edges(s.history)
            else:
                self.ref.apply(s)

    @staticmethod
    def _present(tree, history):
        node = tree.root
        for i in range(0, len(history) - 1, 2):
            anode = node.children[history[i]]
            if anode is None or history[i + 1] not in anode.children:
                return list(history[:i])
            node = anode.children[history[i + 1]]
        return list(history)

    def _add_edges(self, history):
        node = self.runner.tree.root
        for i in range(0, len(history) - 1, 2):
            anode = node.children[history[i]]
            if anode is None or history[i + 1] not in anode.children:
                return
            self.ref.stat(anode)
            self.ref.edges.add((id(anode), history[i + 1]))
            node = anode.children[history[i + 1]]
            self.ref.stat(node)

    # Exact Bayes filter, from the arrays of the model alone

    def posterior(self, history):
        b = self.start.copy()
        for i in range(0, len(history), 2):
            a, o = history[i], history[i + 1]
            nb = np.array([
                sum(b[s] * self.T[a, s, s2] for s in range(self.n_states)) *
                self.O[a, s2, o] for s2 in range(self.n_states)])
            tot = nb.sum()
            if tot <= 0:
                return None
            b = nb / tot
        return b

    def possible_obs(self, history, a):
        b = self.posterior(history)
        if b is None:
            return []
        return [o for o in range(self.n_obs)
                if self.posterior(history + [a, o]) is not None]

    # Caller operations

    def op(self, name, *args):
        self.ops += 1
        self.current_op = (self.ops, name)
        self.op_done = False
        if threads.KERNEL is not None:
            threads.KERNEL.renew()
        self.ctx.event('op', self.ops, name, *args)

    def end_op(self):
        self.op_done = True
        self.ctx.event('end', self.ops)

    def get_action(self, iterations=None):
        self.op('get_action', iterations)
        try:
            a = self.runner.get_action(iterations) if iterations is not None \
                else self.runner.get_action()
        except InjectedFault:
            self.ctx.event('get_action failed')
            self.ctx.probe('get_action-failed')
            # what was committed, if anything, is not specified: leave it
            self.expect_node = None
            self.last = None
            self.end_op()
            return None
        i = self.model.actions.index(a)
        self.last = i
        self.ctx.event('action', a)
        self.expect_node = self._node_for_history()
        self.expect_action = i
        self.end_op()
        return i

    def _node_for_history(self):
        node = self.runner.tree.root
        for i in range(0, len(self.history), 2):
            anode = node.children[self.history[i]]
            node = anode.children[self.history[i + 1]]
        return node

    def step(self, o):
        """True if accepted; the exception if rejected."""
        self.op('step', o)
        name = self.model.observations[o] if isinstance(o, int) else o
        try:
            self.runner.step(name)
        except (ValueError, RuntimeError, InjectedFault) as e:
            self.ctx.event('rejected', type(e).__name__)
            self.end_op()
            return e
        self.history = self.history + [self.last, o]
        self.last_before = self.last
        self.last = None
        self.expect_node = self._node_for_history()
        self.expect_action = None
        self.end_op()
        return True

    def reset(self):
        self.op('reset')
        self.runner.reset()
        self.history = []
        self.last = None
        self.expect_node = self.runner.tree.root
        self.expect_action = None
        self.end_op()


def random_kernel(ctx, max_steps=threads.MAX_STEPS, lines=True):
    ch = ctx.ch
    gap = ch.pick([0, 3, 12, 60, 300, 1500])
    opcodes = lines and gap > 0 and ch.chance(.2)
    tick = ch.pick([1e-4, 1e-5, 1e-3])
    stall = ch.pick([0., 0., .02])
    if gap == 0:
        ctx.probe('cooperative-schedules')
    if opcodes:
        ctx.probe('instruction-level-schedules')
    k = threads.Kernel(ctx, gap=gap, tick=tick, lines=lines and gap > 0,
                       opcodes=opcodes, stall=stall if gap else 0.,
                       max_steps=max_steps)
    k.late_starts = ch.chance(.3)
    return k
