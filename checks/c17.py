"""C17: supportive-task executions follow the task and end when it is done."""
import numpy as np

from sim import loader, supspec

ID = 'C17'
RUNS = {'quick': 3500, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of closed-loop executions with changes '
             'by the human, failing actions and rare outcomes; oracle is the '
             'independently enumerated set of legal orderings and a '
             'relational specification of each change')
RULE = ('random task (nested sequences, alternatives, parallels; also made of '
        'the stock subtasks), probabilities of changes and failures including '
        '0 and 1, one or two preferences; executions driven by random '
        'actions, by the planner and by run_trajectory, past the end, then '
        'by waiting; non-trivial: a complete ordering of two or more subtasks')
COMPONENTS = {
    'real': ['task_models.supportive', 'task_models.task',
             'task_models.lib.pomcp', 'task_models.lib.belief'],
    'stub': ['the human and the plant (the model\'s own random outcomes, '
             'seeded)']}
ASSUMPTIONS = ['integer states are laid out as documented: objects, holding, '
               'preferences, task position',
               'an observed failure of a hold means that it was not accepted']
PROBES = ('complete', 'parallel', 'alternative', 'stock', 'random-actions',
          'planner', 'run-trajectory', 'trajectory-complete', 'after-end',
          'not-random', 'two-preferences', 'waits-only', 'rebuilt',
          'belief-summary')
FAULTS = ('object-changed-by-human', 'preference-changed', 'action-failed',
          'no-answer', 'unneeded-hold-accepted')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    model, sp, calls, root = supspec.random_model(ctx)
    shape(ctx, model, sp, root)
    calls.judge = lambda a, s, out, args, kw, n: one(ctx, sp, a, s, out,
                                                     args, kw)
    best = 0
    for _ in range(ch.between(1, 3)):
        mode = ch.weighted([(4, 'random-actions'), (1, 'planner'),
                            (1, 'run-trajectory')])
        ctx.probe(mode)
        ctx.event(mode)
        best = max(best, {'random-actions': by_actions, 'planner': by_planner,
                          'run-trajectory': by_trajectory}[mode](
                              ctx, model, sp, calls))
    ctx.sim_time += calls.n
    ctx.nontrivial = best >= 2
    ctx.sample = {'task': supspec.htm.show(sp.spec), 'orderings':
                  len(sp.words), 'calls': calls.n, 'longest done': best}


def shape(ctx, model, sp, root):
    ctx.check(model.n_states == sp.n_states, 'state-space', lambda: '{} states '
              'declared instead of {}'.format(model.n_states, sp.n_states))
    s = supspec.htm.show(sp.spec)
    for k, p in (('par', 'parallel'), ('alt', 'alternative')):
        if k in s:
            ctx.probe(p)
    if any('Assemble' in n for n in model.htm_names):
        ctx.probe('stock')
    if sp.n_prefs > 1:
        ctx.probe('two-preferences')
    if ctx.ch.chance(.1):
        # building a model does not use the task up
        ctx.probe('rebuilt')
        again = type(model)(root)
        ctx.check(list(again.htm_names) == list(model.htm_names) and
                  list(again.actions) == list(model.actions) and
                  again.n_states == model.n_states, 'rebuilt', lambda:
                  'a second model of the same task differs: {} then {}'.format(
                      model.htm_names, again.htm_names))


def start_ok(ctx, sp, s):
    h, prefs, body, objs = sp.decode(s)
    ctx.check(0 <= s < sp.n_states, 'out-of-range', lambda: 'start state {} '
              'of {}'.format(s, sp.n_states))
    ctx.check(h < sp.clean and sp.node_leaf[h] in sp.firsts, 'start-position',
              lambda: 'an execution starts at {} and the task at {}'.format(
                  sp.show(s), sorted(sp.firsts)))
    p = sp.k['p_changed_by_human']
    ctx.check(body == 0 and all(o == 0 or p > 0 for o in objs) and
              all(o == 1 or p < 1 for o in objs) and
              all(0 < q < 1 or x == q for q, x in
                  zip(sp.k['p_preferences'], prefs)),
              'start-features', lambda: 'an execution starts in {}, with '
              'probabilities {}'.format(sp.show(s), sp.k))


def one(ctx, sp, a, s, out, args, kw):
    """Any call of the model: is the change of state allowed?"""
    s2, o = int(out[0]), int(out[1])
    random = (list(args) + [kw.get('random', True)])[0]
    ctx.check(0 <= s2 < sp.n_states, 'out-of-range', lambda: '{} in {} leads '
              'to state {} of {}'.format(sp.actions[a], sp.show(s), s2,
                                         sp.n_states))
    ctx.check(0 <= o < len(sp.observations), 'out-of-range', lambda:
              'observation {}'.format(o))
    h, h2 = sp.decode(s)[0], sp.decode(s2)[0]
    if h == sp.final:
        ctx.check(h2 == h, 'left-end', lambda: '{} leaves the final state for '
                  '{}'.format(sp.actions[a], sp.show(s2)))
    if h != h2:
        ctx.check(sp.actions[a] in ('wait', 'hold H', 'hold V') and
                  sp.observations[o] == 'none', 'moved', lambda: 'the task '
                  'moves from {} to {} on {} with observation {}'.format(
                      sp.show(s), sp.show(s2), sp.actions[a],
                      sp.observations[o]))
    ex = sp.explain(s, a, s2, o, random=random)
    ctx.check(ex is not None, 'change', lambda: '{} in {} leads to {} with '
              'observation {}{}; allowed without changes by the human: {}'
              .format(sp.actions[a], sp.show(s), sp.show(s2),
                      sp.observations[o], '' if random else ' (not random)',
                      sp.why(s, a, random)))
    sp.count(ctx, ex)


class Follow:
    """Follows the subtasks of one real execution."""

    def __init__(self, ctx, sp, s):
        self.ctx, self.sp = ctx, sp
        start_ok(ctx, sp, s)
        self.s, self.word, self.done = s, (), False

    def step(self, a, s2, o):
        ctx, sp = self.ctx, self.sp
        h, h2 = sp.decode(self.s)[0], sp.decode(s2)[0]
        ctx.event(sp.actions[a], sp.observations[o], s2)
        performed = h < sp.clean and sp.observations[o] == 'none' and \
            sp.actions[a] in ('wait', 'hold H', 'hold V')
        self.s = s2
        if performed:
            self.word += (sp.node_leaf[h],)
            ctx.check(self.word in sp.prefixes, 'order', lambda: 'subtasks {} '
                      'were performed; the task is {}'.format(
                          self.word, supspec.htm.show(sp.spec)))
            if h2 >= sp.clean:
                ctx.check(h2 == sp.clean, 'no-cleaning', lambda: 'after its '
                          'subtasks {} the task goes to {} without cleaning'
                          .format(self.word, sp.show(s2)))
                ctx.check(self.word in sp.words, 'incomplete', lambda: 'the '
                          'subtasks end after {}; the task is {}'.format(
                              self.word, supspec.htm.show(sp.spec)))
            else:
                nxt = self.word + (sp.node_leaf[h2],)
                ctx.check(nxt in sp.prefixes, 'order', lambda: 'after {} comes '
                          '{}; the task is {}'.format(
                              self.word, sp.show(s2),
                              supspec.htm.show(sp.spec)))
        if h2 == sp.final and not self.done:
            self.done = True
            ctx.check(self.word in sp.words, 'incomplete', lambda: 'the final '
                      'state is reached after {}; the task is {}'.format(
                          self.word, supspec.htm.show(sp.spec)))
            ctx.probe('complete')

    def ends(self, final):
        self.ctx.check(final == self.done, 'final', lambda: 'is_final is {} '
                       'in {}'.format(final, self.sp.show(self.s)))


def by_actions(ctx, model, sp, calls):
    ch = ctx.ch
    s = int(model.sample_start())
    ctx.event('start', s)
    f = Follow(ctx, sp, s)
    waits = ch.chance(.2)
    limit = 0 if waits else ch.pick([10, 40, 150])
    after = ch.between(0, 4)
    if waits:
        ctx.probe('waits-only')
    args = ()
    if ch.chance(.15):
        args = (False,)
        ctx.probe('not-random')
    n = 0
    while n < limit and after > 0:
        n += 1
        if f.done:
            after -= 1
            ctx.probe('after-end')
            a = ch.draw(len(sp.actions))
        else:
            a = supspec.random_action(ch, sp, s)
        s2, o, r = model.sample_transition(a, s, *args)
        s = int(s2)
        f.step(a, s, int(o))
        f.ends(bool(model.is_final(s)))
        if ch.chance(.02):
            summary(ctx, model, sp)
    # nothing but waiting finishes the task
    n = 0
    while not f.done:
        ctx.check(n <= sp.longest + 1, 'no-end', lambda: 'still in {} after '
                  'waiting {} times'.format(sp.show(s), n))
        s2, o, r = model.sample_transition(0, s, *args)
        s = int(s2)
        f.step(0, s, int(o))
        f.ends(bool(model.is_final(s)))
        n += 1
    return len(f.word)


def by_planner(ctx, model, sp, calls):
    pol = supspec.planner(ctx, model, calls)
    s = int(model.sample_start())
    f = Follow(ctx, sp, s)
    pol.reset()
    for _ in range(ctx.ch.pick([5, 15])):
        a = sp.actions.index(pol.get_action())
        s2, o, r = model.sample_transition(a, s)
        s = int(s2)
        f.step(a, s, int(o))
        f.ends(bool(model.is_final(s)))
        if f.done:
            break
        try:
            pol.step(sp.observations[int(o)])
        except (ValueError, RuntimeError):
            ctx.event('history lost')
            break
    return len(f.word) if f.done else 0


def by_trajectory(ctx, model, sp, calls):
    pol = supspec.planner(ctx, model, calls)
    calls.real = []
    calls.stop_after = ctx.ch.pick([10, 30])
    lines = []
    full = False
    try:
        pol.run_trajectory(logger=lines.append)
        full = True
    except supspec.Enough:
        ctx.event('long trajectory')
    except (ValueError, RuntimeError):
        # observations that no particle explains
        ctx.check(len(calls.real) > 0, 'trajectory', 'run_trajectory fails at '
                  'once')
        ctx.event('history lost')
    calls.stop_after = None
    if not calls.real:
        return 0
    f = Follow(ctx, sp, calls.real[0][1])
    for a, s, s2, o, r in calls.real:
        ctx.check(s == f.s, 'trajectory', lambda: 'a transition from {} while '
                  'the trajectory is in {}'.format(sp.show(s), sp.show(f.s)))
        ctx.check(not f.done, 'trajectory', 'the trajectory goes on past the '
                  'final state')
        f.step(a, s2, o)
    if full:
        ctx.probe('trajectory-complete')
        ctx.check(f.done, 'trajectory', lambda: 'the trajectory ends in {}'
                  .format(sp.show(f.s)))
        total = sum(c[4] for c in calls.real)
        got = float(str(lines[-1]).split()[-1])
        ctx.check(abs(total - got) < 1e-5 * max(1, abs(total)), 'trajectory',
                  lambda: 'total reward {} reported and {} obtained'.format(
                      got, total))
    return len(f.word) if f.done else 0


def summary(ctx, model, sp):
    """Beliefs summed over task positions and preferences."""
    ch = ctx.ch
    ctx.probe('belief-summary')
    b = np.random.RandomState(ch.draw(1 << 16)).random_sample(
        sp.n_states) ** ch.pick([1, 9])
    b /= b.sum()
    q = [0.] * (sp.final + 1)
    p = [0.] * sp.n_prefs
    for s in range(sp.n_states):
        h, prefs, _, _ = sp.decode(s)
        q[h] += b[s]
        for i, x in enumerate(prefs):
            p[i] += x * b[s]
    _s = model._int_to_state()
    ctx.check(np.allclose(_s.belief_quotient(b), q), 'summary', lambda:
              'belief over task positions {} instead of {}'.format(
                  _s.belief_quotient(b), q))
    # (their order is not stated when there are several)
    got = sorted(_s.belief_preferences(b))
    ctx.check(np.allclose(got, sorted(p)), 'summary', lambda:
              'belief over preferences {} instead of {}'.format(got, p))
