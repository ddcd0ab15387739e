"""Closed-loop episodes on the supportive-task model: spies that log what the
policy and the model really did, used to judge evaluation records.
"""
import os

import numpy as np

from . import htm, loader, planner, popen, procs
from .core import InjectedFault

STOOL = ['joints', 'leg', 'screwdriver', 'screws']


class Log:
    """Everything that happened in this process since clear()."""

    def __init__(self):
        self.clear()
        self.base = 0.

    def clear(self):
        self.entries = []       # ('reset',) ('get', name) ('step', o) ...
        self.depth = 0          # inside the policy
        self.calls = 0          # all model transitions
        self.fault_in = None    # calls before an injected error
        self.fault_outside = None   # same, counting real transitions only

    def maybe_fail(self, ctx):
        if self.fault_in is not None:
            self.fault_in -= 1
            if self.fault_in < 0:
                self.fault_in = None
                ctx.fault('model-error')
                raise InjectedFault('model error')
        if self.depth == 0 and self.fault_outside is not None:
            self.fault_outside -= 1
            if self.fault_outside < 0:
                self.fault_outside = None
                ctx.fault('model-error')
                raise InjectedFault('model error')

    def age(self):
        return self.base + .37 * self.calls


class Spy:
    """The policy under evaluation, as the evaluation sees it."""

    def __init__(self, policy, log):
        self._p = policy
        self._log = log

    def _do(self, f, *args, **kwargs):
        self._log.depth += 1
        try:
            return f(*args, **kwargs)
        finally:
            self._log.depth -= 1

    def reset(self, *args, **kwargs):
        self._do(self._p.reset, *args, **kwargs)
        self._log.entries.append(('reset',))

    def get_action(self, *args, **kwargs):
        a = self._do(self._p.get_action, *args, **kwargs)
        self._log.entries.append(('get', a))
        return a

    def step(self, observation):
        self._log.entries.append(('step', observation))
        return self._do(self._p.step, observation)

    def __getattr__(self, name):
        return getattr(self._p, name)


class RandomPolicy:
    """Any legal policy: depends on all observations since the reset."""

    def __init__(self, model, seed, finish):
        self.model, self.seed, self.finish = model, seed, finish
        self.reset()

    def reset(self):
        self.seen = []

    def step(self, o):
        self.seen.append(o)

    def get_action(self, iterations=None):
        h = hash_of((self.seed,) + tuple(self.seen))
        acts = self.model.actions
        if self.finish and h % 3:
            return 'wait'
        return acts[h // 3 % len(acts)]


def hash_of(x):
    h = 14695981039346656037
    for b in repr(x).encode():
        h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
    return h >> 13


def make_model(ctx, log, stool=False, max_leaves=3, discount=None):
    """A real supportive model, instrumented."""
    ch = ctx.ch
    ns = loader.load()
    sup = ns.supportive
    if stool:
        root, spec, leaves = stool_task(ctx, max_leaves)
    else:
        root, spec, leaves = htm.supportive_task(ctx, max_leaves=max_leaves)

    class Model(sup.SupportivePOMDP):

        def sample_transition(self, a, s, *args, **kwargs):
            log.calls += 1
            log.maybe_fail(ctx)
            out = super(Model, self).sample_transition(a, s, *args, **kwargs)
            if log.depth == 0:
                log.entries.append(('trans', int(a), int(s), int(out[0]),
                                    int(out[1]), float(out[2])))
            return out

        def sample_start(self):
            s = super(Model, self).sample_start()
            if log.depth == 0:
                log.entries.append(('start', int(s)))
            return s

    for k, v in htm.random_knobs(ch).items():
        setattr(Model, k, v)
    if discount is None:
        discount = ch.pick([1., .9, .5, 0.])
    model = Model(root, discount=discount)
    model.spec, model.leaf_specs = spec, leaves
    return model


class _MatrixState:

    def __init__(self, s, finals):
        self.s, self._finals = s, finals

    def is_final(self):
        return self.s in self._finals

    def __str__(self):
        return 'state-%s' % self.s


def make_matrix_model(ctx, log):
    """A model given by arrays with arbitrary final states, instrumented."""
    ch = ctx.ch
    ns = loader.load()
    T, O, R, start, discount = planner.random_arrays(ch, max_s=6, max_a=4)
    # (an episode does not start in a final state)
    finals = set(s for s in range(T.shape[1])
                 if start[s] == 0 and ch.chance(.5))

    class Model(ns.pomdp.POMDP):

        n_simulator_calls = 0
        final_states = finals

        def _int_to_state(self, s=0):
            return _MatrixState(s, finals)

        def is_final(self, s):
            return s in finals

        def sample_transition(self, a, s, *args, **kwargs):
            log.calls += 1
            log.maybe_fail(ctx)
            self.n_simulator_calls += 1
            out = super(Model, self).sample_transition(a, s, *args, **kwargs)
            if log.depth == 0:
                log.entries.append(('trans', int(a), int(s), int(out[0]),
                                    int(out[1]), float(out[2])))
            return out

        def sample_start(self):
            s = super(Model, self).sample_start()
            if log.depth == 0:
                log.entries.append(('start', int(s)))
            return s

    ctx.event('matrix model', T.shape, O.shape, sorted(finals), discount)
    return Model(T, O, R, start, discount)


def stool_task(ctx, max_leaves=4):
    """Sequence of leg subtasks all held horizontally, as the scripted policy
    expects."""
    ch = ctx.ch
    ns = loader.load()
    sup, task = ns.supportive, ns.task
    n = ch.between(1, max_leaves)
    leaves = []
    for _ in range(n):
        conds = [(sup.USES, o) for o in ('joints', 'screwdriver', 'screws')]
        conds.insert(ch.draw(4), (ch.pick([sup.CONSUMES, sup.CONSUMES_SOME])
                                  if False else sup.CONSUMES, 'leg'))
        leaves.append(htm.LeafSpec('h', conds))

    def make(i):
        class Step(sup.SupportedAction):

            hold = 'h'

            def __init__(self, name):
                super(Step, self).__init__(name)
                self.conditions = list(leaves[i].conditions)

        return Step('L%dx' % i)

    spec = ('seq', [('leaf', i) for i in range(n)])
    root = htm.build(ns, spec, make)
    ctx.event('stool', n)
    return root, spec, leaves


def make_policy(ctx, model, kind):
    ch = ctx.ch
    ns = loader.load()
    if kind.startswith('matrix'):
        if kind == 'matrix-random':
            return RandomPolicy(model, ch.draw(1 << 16), False)
        return ns.pomcp.POMCPPolicyRunner(
            model, iterations=ch.between(1, 6),
            horizon=ns.evaluation.FinishedOrNTransitionsHorizon.generator(
                model, n=ch.between(1, 4)),
            exploration=ch.pick([1., 50.]), logger=lambda *a, **k: None)
    if kind == 'random':
        return RandomPolicy(model, ch.draw(1 << 16), ch.chance(.6))
    if kind == 'scripted':
        return ns.policy.PolicyLongSupportiveSequence(model)
    hor = ch.pick([ns.evaluation.FinishedOrNTransitionsHorizon,
                   ns.supportive.NHTMHorizon])
    return ns.pomcp.POMCPPolicyRunner(
        model, iterations=ch.between(1, 6),
        horizon=hor.generator(model, n=ch.between(1, 4)),
        rollout_it=ch.between(1, 2), exploration=ch.pick([1., 50.]),
        relative_exploration=ch.chance(.3), belief='particle',
        belief_params={'n_particles': ch.between(3, 12)},
        logger=lambda *a, **k: None)


def make_ps(ctx, log):
    def age(pid):
        if pid == os.getpid():
            return log.age()
        return 1e7 if pid == os.getppid() else None

    return popen.Ps(ctx, age)


def expected(model, entries):
    """What a truthful record says, from the log of one episode; or why the
    log is no closed-loop episode: (record, error)."""
    states, actions, obs, rewards = [], [], [], []
    pending = None       # action chosen, not executed yet
    told = 0             # observations the policy has got
    fresh = False
    for e in entries:
        if e[0] == 'reset':
            if actions or pending is not None or told:
                return None, 'the policy is reset during the episode'
            fresh = True
        elif e[0] == 'start':
            if states:
                return None, 'a second start state is drawn'
            states.append(e[1])
        elif e[0] == 'get':
            if not fresh:
                return None, 'the policy acts before being reset'
            if told != len(obs):
                return None, ('action {} is chosen after {} of the {} '
                              'observations'.format(len(actions), told,
                                                    len(obs)))
            if pending is not None:
                return None, 'two actions are chosen for one transition'
            pending = e[1]
        elif e[0] == 'trans':
            if not states:
                return None, 'a transition before the start'
            if pending is None:
                return None, 'a transition without a chosen action'
            _, a, s, s2, o, r = e
            if s != states[-1]:
                return None, ('a transition from {} while the episode is in '
                              '{}'.format(s, states[-1]))
            if model.actions[a] != pending:
                return None, ('action {} is executed instead of the chosen {}'
                              .format(model.actions[a], pending))
            pending = None
            actions.append(a)
            states.append(s2)
            obs.append(o)
            rewards.append(r)
        else:
            if told >= len(obs) or model.observations[obs[told]] != e[1]:
                return None, 'the policy is told {} after {}'.format(
                    e[1], [model.observations[o] for o in obs])
            told += 1
    return {'states': states, 'actions': actions, 'observations': obs,
            'rewards': rewards}, None


def is_final(model, s):
    """The last value of the task feature, by the documented layout."""
    if hasattr(model, 'final_states'):
        return s in model.final_states
    shift = len(model.preferences) + 1 + len(model.objects)
    return (s >> shift) == len(model.htm_nodes) + 1


def judge(model, rec, entries, calls, age, max_horizon, gamma):
    """None, or how the record is wrong about the logged episode."""
    exp, err = expected(model, entries)
    if err is not None:
        return 'not-closed-loop', err
    for k in ('states', 'actions', 'observations', 'rewards', 'return',
              'simulator-calls', 'elapsed-time'):
        if not isinstance(rec, dict) or k not in rec:
            return 'record', 'the record {} has no {}'.format(rec, k)
    for k in ('states', 'actions', 'observations', 'rewards'):
        got = [float(x) for x in rec[k]]
        if got != [float(x) for x in exp[k]]:
            return 'record', '{} are recorded as {} and were {}'.format(
                k, got, exp[k])
    n = len(exp['actions'])
    finals = [i for i, s in enumerate(exp['states']) if is_final(model, s)]
    if n > max_horizon:
        return 'too-long', '{} transitions, horizon {}'.format(n, max_horizon)
    if n < max_horizon and not finals:
        return 'too-short', '{} transitions of {} and no final state'.format(
            n, max_horizon)
    if finals and finals[0] != n:
        return 'past-end', 'the final state was reached after {} of the {} ' \
            'transitions'.format(finals[0], n)
    want = sum(gamma ** t * r for t, r in enumerate(exp['rewards']))
    if not planner.close(want, rec['return'], 1e-7):
        return 'return', ('the return is {} instead of {} for rewards {} '
                          'discounted by {}'.format(rec['return'], want,
                                                    exp['rewards'], gamma))
    if rec['simulator-calls'] != calls:
        return 'calls', '{} simulator calls reported, {} made'.format(
            rec['simulator-calls'], calls)
    if not age - 1.01 <= rec['elapsed-time'] <= age + 1e-6:
        return 'elapsed', 'elapsed time {} reported by a process of age {:.2f}' \
            .format(rec['elapsed-time'], age)
    return None
