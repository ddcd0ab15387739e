"""C05: the runner's belief is the Bayesian posterior of its history."""
import numpy as np

from sim import loader, planner, planning, threads
from sim.core import InjectedFault

ID = 'C05'
RUNS = {'quick': 9000, 'thorough': 80000}
TECHNIQUE = ('deterministic simulation of closed-loop executions with '
             'background exploration; oracle is an exact Bayes filter over '
             'the arrays of the model')
RULE = ('random model with zero and rare probabilities, sharing on or off, '
        'synchronous or asynchronous planner, program of choices, steps with '
        'observations from a simulated real execution or arbitrary ones, '
        'resets, pauses and model errors; non-trivial: at least three beliefs '
        'compared after an accepted step with a searched tree')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time', 'the real world']}
ASSUMPTIONS = ['beliefs agree to 1e-9']
PROBES = ('beliefs', 'node-beliefs', 'after-reset', 'shared-nodes',
          'integer-arrays',
          'rare-observation', 'impossible-rejected', 'long-history')
FAULTS = ('impossible-observation', 'model-error', 'stall')

TOL = 1e-9


def setup():
    loader.load()


def run(ctx):
    if ctx.ch.chance(.4):
        with planning.random_kernel(ctx) as k:
            drive(ctx, k)
    else:
        drive(ctx, None)


def drive(ctx, k):
    ch = ctx.ch
    p = planning.PlannerRun(ctx, k is not None, belief='array',
                            rare=ch.chance(.5), max_s=5)
    p.build()
    if ch.chance(.2):
        p.rec.fault_in = ch.draw(300)
    state = draw_from(ch, p.start)
    compared = 0

    def judge(what):
        want = p.posterior(p.history)
        got = p.runner.belief.array
        if want is None:
            p.fail('impossible-accepted', 'the history {} of zero probability '
                   'was accepted'.format(p.history))
        if np.shape(got) != np.shape(want) or \
                not np.allclose(got, want, rtol=0, atol=TOL):
            p.fail('posterior', 'after {} the belief for history {} is {} '
                   'instead of {}'.format(what, p.history, list(got),
                                          list(want)))
        ctx.probe('beliefs')

    judge('construction')
    real = True      # the history so far is that of the simulated execution
    for _ in range(ch.between(3, 14)):
        what = ch.weighted([(3, 'real'), (3, 'get'), (2, 'any'), (1, 'reset'),
                            (1, 'idle')])
        if what in ('real', 'any') and p.last is None:
            what = 'get'
        if what == 'real' and not real:
            what = 'any'
        if what == 'get':
            p.get_action(ch.pick([None, 1, 4]))
            judge('choosing an action')
        elif what == 'idle':
            if k is not None:
                k.idle(ch.pick([.015, .1]))
        elif what == 'reset':
            p.reset()
            state, real = draw_from(ch, p.start), True
            judge('reset')
            ctx.probe('after-reset')
        else:
            a = p.last
            if what == 'real':
                s2 = draw_from(ch, p.T[a, state])
                o = draw_from(ch, p.O[a, s2])
                if p.O[a, s2, o] < .05:
                    ctx.probe('rare-observation')
            else:
                o = ch.draw(p.n_obs)
                s2 = None
            possible = o in p.possible_obs(p.history, a)
            hist = list(p.history)
            r = p.step(o)
            if r is True:
                if not possible:
                    p.fail('impossible-accepted', 'observation {} of zero '
                           'probability after {} and action {} was accepted'
                           .format(o, hist, a))
                compared += 1
                judge('a step')
                if what == 'real':
                    state = s2
                    if not p.runner.belief.array[state] > 0:
                        p.fail('true-state-lost', 'the belief {} excludes the '
                               'true state {}'.format(
                                   list(p.runner.belief.array), state))
                else:
                    real = False
                p.last = None
            else:
                if possible and not isinstance(r, InjectedFault):
                    p.fail('possible-rejected', 'observation {} of positive '
                           'probability after {} and action {} was rejected: '
                           '{!r}'.format(o, hist, a, r))
                if not possible:
                    ctx.fault('impossible-observation')
                    ctx.probe('impossible-rejected')
                p.last = a
                judge('a rejected step')
    if len(p.history) >= 8:
        ctx.probe('long-history')
    # beliefs of every node reached by searching
    if k is not None:
        p.runner.execute(walk, p)
    else:
        walk(p)
    if k is not None:
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
    ctx.nontrivial = compared >= 3
    ctx.sample = {'history': p.history, 'sharing': p.sharing,
                  'async': k is not None, 'compared': compared}
    _keep.append(p.runner)


_keep = []


def walk(p):
    """The belief of each node equals the posterior of each history that
    leads to it; histories share a node if asked and their beliefs are
    equal."""
    seen, by_belief = {}, {}
    stack = [(p.runner.tree.root, p.start, ())]
    n = 0
    while stack and n < 3000:
        node, b, path = stack.pop()
        if node is None or b is None:
            continue
        n += 1
        if not np.allclose(node.belief.array, b, rtol=0, atol=TOL):
            p.fail('node-posterior', 'the tree node for history {} holds '
                   'belief {} instead of {}'.format(
                       path, list(node.belief.array), list(b)))
        if id(node) in seen:
            if not p.sharing:
                p.fail('shared-unasked', 'histories {} and {} share a node '
                       'although sharing is off'.format(seen[id(node)], path))
            if seen[id(node)] != path:
                p.ctx.probe('shared-nodes')
            continue
        seen[id(node)] = path
        key = tuple(float(x) + 0. for x in node.belief.array)
        if p.sharing and key in by_belief:
            p.fail('not-shared', 'histories {} and {} have the same belief {} '
                   'and different nodes although sharing is on'.format(
                       by_belief[key], path, key))
        by_belief[key] = path
        for a, anode in enumerate(node.children):
            if anode is None:
                continue
            for o, child in anode.children.items():
                nb = np.array([
                    sum(b[s] * p.T[a, s, s2] for s in range(p.n_states)) *
                    p.O[a, s2, o] for s2 in range(p.n_states)])
                if nb.sum() <= 0:
                    p.fail('impossible-node', 'the tree has a node for the '
                           'history {} of zero probability'.format(
                               path + (a, o)))
                stack.append((child, nb / nb.sum(), path + (a, o)))
    p.ctx.probe('node-beliefs', n)


def draw_from(ch, probs):
    """An index of positive probability, mostly likely ones."""
    cands = [i for i, x in enumerate(probs) if x > 0]
    if len(cands) > 1 and ch.chance(.6):
        x = ch.unit()
        for i in cands:
            x -= probs[i]
            if x < 0:
                return i
    return ch.pick(cands)
