"""C18: supportive-task rewards and observations are those of the real event."""
import numpy as np

from sim import loader, supspec

ID = 'C18'
RUNS = {'quick': 9000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of executions with changes by the '
             'human, failing actions and rare outcomes; oracle is a '
             'relational specification of (state, action, next state, '
             'observation, reward)')
RULE = ('random task, costs, bonuses and probabilities including 0 and 1; '
        'transitions along executions by random actions, of the planner\'s '
        'simulations, and from arbitrary states, with and without '
        'randomness; non-trivial: at least ten transitions')
COMPONENTS = {
    'real': ['task_models.supportive', 'task_models.task',
             'task_models.lib.pomcp'],
    'stub': ['the human and the plant (the model\'s own random outcomes, '
             'seeded)']}
ASSUMPTIONS = ['integer states are laid out as documented: objects, holding, '
               'preferences, task position']
LABELS = ('subtask', 'hold accepted', 'hold refused', 'finished',
          'at the end', 'hold while cleaning', 'answer', 'not found', 'bring',
          'clear')
PROBES = LABELS + ('not-random', 'planner', 'arbitrary-state',
                   'missing-object', 'left-over-object',
                   'independent-preference', 'counter-reset')
FAULTS = ('object-changed-by-human', 'preference-changed', 'action-failed',
          'no-answer', 'unneeded-hold-accepted')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    model, sp, calls, _ = supspec.random_model(ctx, max_leaves=4)
    calls.judge = lambda a, s, out, args, kw, n: judge(ctx, sp, a, s, out,
                                                       args, kw, n)
    if sp.k['reward_independent_preference']:
        ctx.probe('independent-preference')
    ctx.check(model.n_simulator_calls == 0, 'counter', 'a new model counts '
              '{} calls'.format(model.n_simulator_calls))
    repertoire(ctx, model, sp)
    total = 0
    for _ in range(ch.between(1, 3)):
        mode = ch.weighted([(3, 'actions'), (2, 'arbitrary-state'),
                            (1, 'planner')])
        ctx.event(mode)
        before = calls.n
        if mode == 'planner':
            ctx.probe(mode)
            pol = supspec.planner(ctx, model, calls)
            for _ in range(ch.between(1, 3)):
                pol.get_action()
        else:
            s = int(model.sample_start())
            for _ in range(ch.pick([10, 30])):
                if mode == 'arbitrary-state' and ch.chance(.7):
                    s = ch.draw(sp.n_states)
                    # nothing is ever held by the human here
                    s &= ~(1 << len(sp.objects))
                    ctx.probe(mode)
                a = supspec.random_action(ch, sp, s)
                how = ch.draw(4)
                if how == 1:
                    out = model.sample_transition(a, s, False)
                elif how == 2:
                    out = model.sample_transition(a, s, random=False)
                elif how == 3:
                    out = model.sample_transition(a, s, random=True)
                else:
                    out = model.sample_transition(a, s)
                ctx.event(sp.actions[a], s, out[0], out[1], out[2])
                s = int(out[0])
        total += calls.n - before
        ctx.check(model.n_simulator_calls == total, 'counter', lambda: '{} '
                  'calls counted after {}'.format(model.n_simulator_calls,
                                                  total))
        if ch.chance(.1):
            ctx.probe('counter-reset')
            model.n_simulator_calls = total = 0
    ctx.sim_time += calls.n
    ctx.nontrivial = calls.n >= 10
    ctx.sample = {'task': supspec.htm.show(sp.spec), 'calls': calls.n}


def repertoire(ctx, model, sp):
    """What can be done and observed at all."""
    conds = [c for l in (sp.leaves.values() if isinstance(sp.leaves, dict)
                         else sp.leaves) for c in l.conditions]
    objs = sorted(set(o for _, o in conds))
    left = sorted(set(o for c, o in conds if c != sp.CONSUMES))
    ctx.check(sorted(model.objects) == objs, 'objects', lambda: 'objects {} '
              'for a task with {}'.format(model.objects, objs))
    want = ['wait', 'hold H', 'hold V', 'ask hold'] + [
        'bring ' + o for o in objs] + ['clear ' + o for o in left]
    ctx.check(sorted(model.actions) == sorted(want), 'actions', lambda:
              'actions {} where subtasks use {} and leave {}'.format(
                  model.actions, objs, left))
    ctx.check(model.n_actions == len(want) and
              model.n_observations == len(sp.observations) and
              model.n_states == sp.n_states, 'numbers', lambda: '{} actions, '
              '{} observations, {} states for {}, {}, {}'.format(
                  model.n_actions, model.n_observations, model.n_states,
                  len(want), len(sp.observations), sp.n_states))
    ctx.check(len(model.features) == 2 + sp.n_prefs + len(objs), 'features',
              lambda: 'features {}'.format(model.features))


def judge(ctx, sp, a, s, out, args, kw, n):
    s2, o, r = int(out[0]), int(out[1]), float(out[2])
    random = (list(args) + [kw.get('random', True)])[0]
    ctx.check(n == 1, 'counter', lambda: 'one transition counts as {}'.format(
        n))
    if not random:
        ctx.probe('not-random')
    ex = sp.explain(s, a, s2, o, r, random=random)
    if ex is None:
        ok = sp.explain(s, a, s2, o, random=random)
        ctx.violate('reward' if ok else 'observation', '{} in {} leads to {} '
                    'with observation {} and reward {}{}; without changes by '
                    'the human: {}'.format(
                        sp.actions[a], sp.show(s), sp.show(s2),
                        sp.observations[o] if o < len(sp.observations) else o,
                        r, '' if random else ' (not random)',
                        sp.why(s, a, random)))
    sp.count(ctx, ex)
    if ex[1] in LABELS:
        ctx.probe(ex[1])
    h, prefs, _, objs = sp.decode(s)
    if ex[1] == 'subtask' and any(
            not objs[sp.objects.index(x)]
            for _, x in sp.leaves[sp.node_leaf[h]].conditions):
        ctx.probe('missing-object')
    if ex[1] == 'finished' and any(objs):
        ctx.probe('left-over-object')
