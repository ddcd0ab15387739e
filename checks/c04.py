"""C04: a rejected step leaves the policy runner exactly as it was."""
import numpy as np

from sim import loader, planner, planning, threads
from sim.core import InjectedFault

ID = 'C04'
RUNS = {'quick': 10000, 'thorough': 80000}
TECHNIQUE = ('deterministic simulation with injected bad observations and '
             'model faults inside step; oracle is a twin runner that never '
             'received the rejected observations, and the state before')
RULE = ('random model or policy graph, one of five runners (tree search with '
        'exact or particle beliefs, asynchronous tree search, policy graph, '
        'policy graph with belief), program of choices and steps with '
        'rejected observations inserted (unknown, impossible, unreachable by '
        'sampling, model failing part-way); non-trivial: at least one '
        'rejected step was followed by an accepted one')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time', 'model failures']}
ASSUMPTIONS = ['random numbers drawn by a rejected step are given back '
               'before comparing with the twin',
               'tree nodes that were never visited are not compared']
PROBES = ('rejected-unknown', 'rejected-impossible', 'rejected-unreachable',
          'rejected-fault', 'rejected-no-action', 'accepted-after-rejected',
          'kind-tree', 'kind-async', 'kind-graph', 'kind-graph-belief')
FAULTS = ('bad-observation', 'model-error', 'stall')

UNKNOWN = ['nonsense', None, '', 3.5, 'A0', ('o0',)]


def setup():
    loader.load()


def run(ctx):
    kind = ctx.ch.pick(['tree', 'graph', 'graph-belief', 'tree', 'async'])
    ctx.probe('kind-' + kind)
    {'tree': run_tree, 'graph': run_graph, 'graph-belief': run_graph_belief,
     'async': run_async}[kind](ctx)


# Tree search, with a twin ---------------------------------------------------

class Side:
    """One of the two runners, with its own random stream."""

    def __init__(self, ctx, ns, arrays, params, seed, cls='tree'):
        self.ns = ns
        self.rec = planner.Recorder(ctx)
        self.model = planner.recording_model(ns, self.rec, arrays)
        self.state = np.random.RandomState(seed).get_state()
        self.runner = self.do(lambda: ns.pomcp.POMCPPolicyRunner(
            self.model, logger=lambda *a, **k: None, **params))

    def do(self, f, *args):
        np.random.set_state(self.state)
        try:
            return f(*args)
        finally:
            self.state = np.random.get_state()

    def step(self, o):
        """None if accepted, else the exception."""
        try:
            self.do(self.runner.step, o)
        except (ValueError, RuntimeError, InjectedFault, TypeError) as e:
            return e
        return None


def snap(runner):
    return (list(runner.history), runner.belief.array.tolist())


def difference(root_a, root_b):
    """First history at which the visited nodes of two trees differ."""
    seen = set()
    stack = [(root_a, root_b, ())]
    while stack:
        a, b, path = stack.pop()
        va, vb = [(n.n_simulations, n.value) if n is not None and
                  n.n_simulations > 0 else None for n in (a, b)]
        if va != vb:
            return '{}: {} and {}'.format(path, vb, va)
        if a is None or b is None or (id(a), id(b)) in seen:
            continue
        seen.add((id(a), id(b)))
        if isinstance(a.children, list):
            keys = range(len(a.children))
            ca, cb = a.children.__getitem__, b.children.__getitem__
        else:
            keys = sorted(set(a.children) | set(b.children))
            ca, cb = a.children.get, b.children.get
        for k in keys:
            stack.append((ca(k), cb(k), path + (int(k),)))
    return None


def run_tree(ctx):
    ch = ctx.ch
    ns = loader.load()
    arrays = planner.random_arrays(ch, rare=ch.chance(.3))
    belief = ch.pick(['array', 'particle'])
    n_part = ch.between(2, 6)
    params = dict(iterations=ch.between(1, 8), horizon=ch.between(1, 4),
                  rollout_it=ch.between(1, 2),
                  belief_values=belief == 'array' and ch.chance(.4),
                  belief=belief,
                  belief_params={'n_particles': n_part}
                  if belief == 'particle' else {})
    seed = ch.draw(1 << 16)
    ctx.event('tree', params)
    a, b = (Side(ctx, ns, arrays, params, seed) for _ in range(2))
    model = b.model
    exact = Exact(arrays)
    history, last = [], None
    rejected = accepted_after = 0

    def same(what):
        ctx.check(snap(a.runner) == snap(b.runner), 'differs',
                  lambda: 'after {} the runner that rejected observations is '
                  'at {} and its twin at {}'.format(
                      what, snap(b.runner), snap(a.runner)))
        d = difference(a.runner.tree.root, b.runner.tree.root)
        ctx.check(d is None, 'tree-differs', lambda: 'after {} the visited '
                  'nodes of a runner that rejected observations differ from '
                  'its twin\'s at {}'.format(what, d))

    for _ in range(ch.between(3, 9)):
        what = ch.weighted([(3, 'get'), (3, 'step'), (4, 'bad'),
                            (1, 'reset')])
        if what == 'step' and last is None:
            what = 'get'
        if what == 'get':
            it = ch.pick([None, 1, 3])
            ra, rb = (s.do(s.runner.get_action, it) for s in (a, b))
            ctx.event('get', it, ra, rb)
            ctx.check(ra == rb, 'action-differs', lambda: 'after rejected '
                      'observations the runner chooses {} where its twin '
                      'chooses {} (history {})'.format(rb, ra, history))
            last = model.actions.index(ra)
        elif what == 'reset':
            for s in (a, b):
                s.do(s.runner.reset)
            history, last = [], None
            ctx.event('reset')
        elif what == 'step':
            o = ch.draw(len(model.observations))
            ea, eb = (s.step(model.observations[o]) for s in (a, b))
            ctx.event('step', o, type(ea).__name__, type(eb).__name__)
            ctx.check(type(ea) is type(eb), 'differs', lambda: 'observation '
                      '{} after {} is {} with rejected observations and {} '
                      'without'.format(o, history, eb or 'accepted',
                                       ea or 'accepted'))
            if ea is None:
                history = history + [last, o]
                if rejected:
                    accepted_after += 1
        else:
            before = snap(b.runner)
            rng = b.state
            kind, r, arg = bad_step(ctx, b, exact, history, last)
            ctx.event('bad', kind, arg, type(r).__name__)
            if r is None:      # acceptable after all: give it to the twin
                if kind in ('unknown', 'impossible', 'no-action'):
                    if not (kind == 'impossible' and belief == 'particle'):
                        ctx.violate('not-rejected', 'the {} observation {!r} '
                                    'after {} was accepted'.format(
                                        kind, arg, history))
                    # all particles may be stale only if sampled, never so
                    ctx.violate('not-rejected', 'an observation of zero '
                                'probability was accepted by a particle '
                                'belief')
                ea = a.step(arg)
                ctx.check(ea is None, 'differs', lambda: 'the twin rejects '
                          '{}: {!r}'.format(arg, ea))
                history = history + [last, model.observations.index(arg)]
            else:
                rejected += 1
                ctx.probe('rejected-' + kind)
                ctx.fault('bad-observation')
                b.state = rng
                ctx.check(snap(b.runner) == before, 'changed', lambda:
                          'rejecting the {} observation {!r} changed the '
                          'runner from {} to {}'.format(
                              kind, arg, before, snap(b.runner)))
        ctx.check(list(b.runner.history) == history, 'history',
                  lambda: 'the history is {} instead of {}'.format(
                      b.runner.history, history))
        same(what)
    if accepted_after:
        ctx.probe('accepted-after-rejected', accepted_after)
    ctx.nontrivial = accepted_after > 0
    ctx.sample = {'kind': 'tree', 'params': params, 'history': history,
                  'rejected': rejected}


def bad_step(ctx, side, exact, history, last):
    ch = ctx.ch
    obs = side.model.observations
    if last is None:
        o = ch.pick(obs)
        return 'no-action', side.step(o), o
    imp = exact.impossible(history, last)
    rare = [o for o in range(len(obs)) if o not in imp]
    what = ch.pick(['unknown', 'impossible', 'fault', 'unreachable'])
    if what == 'impossible' and not imp:
        what = 'fault'
    if what == 'unknown':
        o = ch.pick(UNKNOWN)
        return what, side.step(o), o
    if what == 'impossible':
        o = obs[ch.pick(imp)]
        return what, side.step(o), o
    o = obs[ch.pick(rare)]
    if what == 'fault':
        side.rec.fault_in = ch.draw(4)
        r = side.step(o)
        side.rec.fault_in = None
        return what, r, o
    return what, side.step(o), o


class Exact:

    def __init__(self, arrays):
        self.T, self.O, self.R, self.start, _ = arrays

    def posterior(self, history):
        b = self.start.copy()
        for i in range(0, len(history), 2):
            b = self.update(b, history[i], history[i + 1])
            if b is None:
                return None
        return b

    def update(self, b, a, o):
        n = len(b)
        nb = np.array([sum(b[s] * self.T[a, s, s2] for s in range(n)) *
                       self.O[a, s2, o] for s2 in range(n)])
        tot = nb.sum()
        return nb / tot if tot > 0 else None

    def impossible(self, history, a):
        b = self.posterior(history)
        if b is None:
            return []
        return [o for o in range(self.O.shape[2])
                if self.update(b, a, o) is None]


# Asynchronous tree search ---------------------------------------------------

def run_async(ctx):
    ch = ctx.ch
    with planning.random_kernel(ctx) as k:
        p = planning.PlannerRun(ctx, True, rare=ch.chance(.3))
        runner = p.build()
        p.rec.exclusive = False
        rejected = accepted_after = 0
        for _ in range(ch.between(3, 8)):
            what = ch.weighted([(3, 'get'), (3, 'step'), (4, 'bad'),
                                (1, 'reset'), (2, 'idle')])
            if what == 'step' and p.last is None:
                what = 'get'
            if what == 'get':
                p.get_action(ch.pick([None, 1, 3]))
            elif what == 'reset':
                p.reset()
            elif what == 'idle':
                k.idle(ch.pick([.015, .1]))
            else:
                before = snap(runner)
                hist, last = list(p.history), p.last
                sure = False
                if what == 'step':
                    o = ch.draw(p.n_obs)
                    kind = 'impossible' if o not in p.possible_obs(
                        hist, last) else 'fine'
                    sure = kind == 'impossible'
                elif last is None and not hist:
                    kind, o, sure = 'no-action', ch.draw(p.n_obs), True
                elif last is None:
                    continue
                else:
                    kind = ch.pick(['unknown', 'fault'])
                    if kind == 'unknown':
                        o, sure = ch.pick(UNKNOWN), True
                    else:
                        o = ch.draw(p.n_obs)
                        p.rec.fault_in = ch.draw(4)
                        p.rec.fault_thread = 0
                r = p.step(o)
                p.rec.fault_in = None
                if r is True:
                    if sure:
                        p.fail('not-rejected', 'the {} observation {!r} after '
                               '{} was accepted'.format(kind, o, hist))
                    hist = hist + [last, o]
                    if p.belief == 'array':
                        want = p.posterior(hist)
                        if want is None or not np.allclose(
                                runner.belief.array, want, atol=1e-9):
                            p.fail('wrong-position', 'after the accepted {} '
                                   'the belief is {} instead of {}'.format(
                                       hist, runner.belief.array, want))
                    if rejected:
                        accepted_after += 1
                else:
                    rejected += 1
                    ctx.probe('rejected-' + (
                        'unreachable' if kind == 'fine' else kind))
                    ctx.fault('bad-observation')
                    p.last = last
                    if snap(runner) != before:
                        p.fail('changed', 'rejecting {!r} changed the runner '
                               'from {} to {}'.format(o, before,
                                                      snap(runner)))
                if list(runner.history) != hist:
                    p.fail('history', 'the history is {} instead of {}'.format(
                        runner.history, hist))
        # stays so while the explorer goes on
        before = snap(runner)
        k.idle(.05)
        if snap(runner) != before:
            p.fail('changed', 'exploring changed the position of the runner')
        if accepted_after:
            ctx.probe('accepted-after-rejected', accepted_after)
        ctx.nontrivial = accepted_after > 0
        ctx.sample = {'kind': 'async', 'ops': p.ops, 'rejected': rejected}
        _keep.append(runner)


_keep = []


# Policy graphs --------------------------------------------------------------

def random_graph(ctx, ns, n_a, n_o, n_s, gaps):
    ch = ctx.ch
    n = ch.between(1, 5)
    actions = ['a%d' % ch.draw(n_a) for _ in range(n)]
    trans = [[None if gaps and ch.chance(.35) else ch.draw(n)
              for _ in range(n_o)] for _ in range(n)]
    values = np.array([[float(ch.draw(21) - 10) for _ in range(n_s)]
                       for _ in range(n)])
    init = ch.draw(n)
    ctx.event('graph', actions, trans, values.tolist(), init)
    return ns.pomdp.GraphPolicy(actions, ['o%d' % i for i in range(n_o)],
                                trans, values, init=init), trans, values, init


def run_graph(ctx):
    ch = ctx.ch
    ns = loader.load()
    n_s = ch.between(1, 3)
    gp, trans, values, init = random_graph(ctx, ns, 3, ch.between(1, 3), n_s,
                                           True)
    runner = ns.pomdp.GraphPolicyRunner(gp)
    at = init
    rejected = accepted_after = 0
    for _ in range(ch.between(2, 10)):
        if ch.chance(.1):
            if ch.chance(.4):
                b = planner.random_stochastic(ch, 1, n_s, True)[0]
                scores = values.dot(b)
                if (scores >= scores.max() - 1e-9).sum() > 1:
                    continue    # a tie: any of them may be taken
                at = int(scores.argmax())
                runner.reset(b)
            else:
                runner.reset()
                at = init
            continue
        unknown = ch.chance(.25)
        o = ch.pick(UNKNOWN) if unknown else ch.pick(gp.observations)
        nxt = None if unknown else trans[at][gp.observations.index(o)]
        ctx.event('step', o, '->', nxt)
        try:
            runner.step(o)
            ok = True
        except (ValueError, TypeError):
            ok = False
        if ok:
            ctx.check(nxt is not None, 'not-rejected', lambda: 'observation '
                      '{!r} has no edge from node {} but was accepted'.format(
                          o, at))
            at = nxt
            if rejected:
                accepted_after += 1
        else:
            ctx.check(nxt is None, 'rejected-valid', lambda: 'observation {!r}'
                      ' leads from {} to {} but was rejected'.format(
                          o, at, nxt))
            rejected += 1
            ctx.probe('rejected-' + ('unknown' if unknown else 'impossible'))
            ctx.fault('bad-observation')
        ctx.check(runner.get_action() == gp.actions[at], 'changed',
                  lambda: 'the runner should be at node {} ({}) and '
                  'recommends {}'.format(at, gp.actions[at],
                                         runner.get_action()))
        ctx.check(int(runner.current) == at, 'changed', lambda:
                  'the runner is at node {} instead of {}'.format(
                      runner.current, at))
    if accepted_after:
        ctx.probe('accepted-after-rejected', accepted_after)
    ctx.nontrivial = accepted_after > 0
    ctx.sample = {'kind': 'graph', 'transitions': trans}


def run_graph_belief(ctx):
    ch = ctx.ch
    ns = loader.load()
    arrays = planner.random_arrays(ch)
    n_a, n_s, n_o = arrays[1].shape
    rec = planner.Recorder(ctx)
    model = planner.recording_model(ns, rec, arrays)
    gp, trans, values, init = random_graph(ctx, ns, n_a, n_o, n_s, False)
    runner = ns.pomdp.GraphPolicyBeliefRunner(gp, model)
    exact = Exact(arrays)
    b = exact.start.copy()
    rejected = accepted_after = 0

    def judge(what):
        ctx.check(np.allclose(runner.current_belief, b, atol=1e-9), 'changed',
                  lambda: 'after {} the belief is {} instead of {}'.format(
                      what, runner.current_belief, b))
        scores = values.dot(b)
        best = {gp.actions[i] for i in range(len(scores))
                if scores[i] >= scores.max() - 1e-7}
        ctx.check(runner.get_action() in best, 'changed', lambda: 'after {} '
                  'the runner recommends {} where {} are best'.format(
                      what, runner.get_action(), best))

    judge('construction')
    for _ in range(ch.between(2, 8)):
        if ch.chance(.1):
            runner.reset()
            b = exact.start.copy()
            judge('reset')
            continue
        a = model.actions.index(runner.get_action())
        act = runner.get_action()
        kind = ch.pick(['fine', 'unknown', 'fault'])
        if kind == 'unknown':
            o, nb = ch.pick(UNKNOWN), None
        else:
            i = ch.draw(n_o)
            o, nb = gp.observations[i], exact.update(b, a, i)
            if nb is None:
                kind = 'impossible'
        if kind == 'fault':
            rec.fault_in = 0
        try:
            runner.step(o)
            ok = True
        except (ValueError, TypeError, InjectedFault) as e:
            ok = False
            ctx.event(type(e).__name__)
        if kind == 'fault' and rec.fault_in is not None:
            kind = 'fine'
        rec.fault_in = None
        ctx.event('step', o, kind, ok)
        if ok:
            ctx.check(kind == 'fine', 'not-rejected', lambda: 'the {} '
                      'observation {!r} was accepted at belief {}'.format(
                          kind, o, b))
            b = nb
            if rejected:
                accepted_after += 1
        else:
            ctx.check(kind != 'fine', 'rejected-valid', lambda: 'observation '
                      '{!r} is possible at belief {} but was rejected'.format(
                          o, b))
            rejected += 1
            ctx.probe('rejected-' + kind)
            ctx.fault('bad-observation')
            ctx.check(runner.get_action() == act, 'changed', lambda:
                      'rejecting {!r} changed the recommended action'.format(
                          o))
        judge('step')
    if accepted_after:
        ctx.probe('accepted-after-rejected', accepted_after)
    ctx.nontrivial = accepted_after > 0
    ctx.sample = {'kind': 'graph-belief', 'rejected': rejected}
