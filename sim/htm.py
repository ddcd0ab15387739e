"""Random hierarchical tasks with an independent statement of their legal
orderings, and the supportive-robot model built from them.
"""
import re

from . import loader, planner
from .core import HarnessError

LEAF = re.compile(r'L(\d+)x', re.I)


def random_spec(ch, max_leaves=5, max_depth=3, min_leaves=1, alt=True,
                max_words=120, max_expanded=24):
    """Nested tuples: ('leaf', i) | ('seq'|'alt'|'par', [specs])."""
    n = [0]
    total = ch.between(min_leaves, max_leaves)

    def leaf():
        n[0] += 1
        return ('leaf', n[0] - 1)

    def node(budget, depth):
        if budget <= 1 or depth == 0:
            return leaf()
        kinds = ['seq', 'par', 'alt'] if alt else ['seq', 'par']
        kind = ch.pick(kinds)
        k = ch.between(1, min(3, budget)) if ch.chance(.15) else \
            ch.between(2, min(3, budget))
        parts = [1] * k
        for _ in range(budget - k):
            parts[ch.draw(k)] += 1
        return (kind, [node(b, depth - 1) for b in parts])

    spec = node(total, ch.between(1, max_depth))
    if expanded(spec) > max_expanded or len(words(spec)) > max_words:
        # too large to enumerate: a plain sequence instead
        return ('seq', [('leaf', i) for i in range(n[0])]), n[0]
    return spec, n[0]


def expanded(spec):
    """Leaves once parallel nodes are spelled out."""
    kind, x = spec
    if kind == 'leaf':
        return 1
    t = sum(expanded(c) for c in x)
    if kind == 'par':
        f = 1
        for i in range(2, len(x) + 1):
            f *= i
        t *= f
    return t


def words(spec):
    """All legal complete orderings of leaves, as a set of tuples."""
    kind, x = spec
    if kind == 'leaf':
        return {(x,)}
    parts = [words(c) for c in x]
    if kind == 'alt':
        return set().union(*parts)
    if kind == 'seq':
        return _concat(parts)
    out = set()
    for p in _permutations(list(range(len(parts)))):
        out |= _concat([parts[i] for i in p])
    return out


def _concat(parts):
    out = {()}
    for p in parts:
        out = {w + v for w in out for v in p}
    return out


def _permutations(l):
    if len(l) <= 1:
        yield l
        return
    for i in range(len(l)):
        for p in _permutations(l[:i] + l[i + 1:]):
            yield [l[i]] + p


def prefixes(ws):
    return {w[:i] for w in ws for i in range(len(w) + 1)}


def build(ns, spec, make_action, label='N'):
    """The real task tree for a spec."""
    task = ns.task
    kind, x = spec
    if kind == 'leaf':
        return task.LeafCombination(make_action(x))
    cls = {'seq': task.SequentialCombination,
           'alt': task.AlternativeCombination,
           'par': task.ParallelCombination}[kind]
    return cls([build(ns, c, make_action, label + str(i))
                for i, c in enumerate(x)], name=label)


def leaf_id(name):
    m = LEAF.search(str(name))
    if m is None:
        raise HarnessError('no leaf in the name ' + str(name))
    return int(m.group(1))


def show(spec):
    kind, x = spec
    if kind == 'leaf':
        return 'L%d' % x
    return '{}({})'.format(kind, ' '.join(show(c) for c in x))


# Supportive model -----------------------------------------------------------

OBJECTS = ['leg', 'screws', 'joints', 'top']


class LeafSpec:
    """What one subtask needs, stated independently of the code."""

    def __init__(self, hold, conditions):
        self.hold = hold
        self.conditions = conditions


def random_leaf(ch, ns, n_objects):
    sup = ns.supportive
    hold = ch.pick([None, 'h', 'v'])
    conds = []
    for o in ch.subset(OBJECTS[:n_objects], .6):
        conds.append((ch.pick([sup.CONSUMES, sup.USES, sup.CONSUMES_SOME]), o))
    return LeafSpec(hold, conds)


def supportive_task(ctx, max_leaves=4, n_objects=None, **kw):
    """(real task root, spec, leaf specs)"""
    ch = ctx.ch
    ns = loader.load()
    if n_objects is None:
        n_objects = ch.between(1, 3)
    spec, n = random_spec(ch, max_leaves=max_leaves, **kw)
    leaves = [random_leaf(ch, ns, n_objects) for _ in range(n)]

    def make(i):
        class Step(ns.supportive.SupportedAction):

            hold = leaves[i].hold

            def __init__(self, name):
                super(Step, self).__init__(name)
                self.conditions = list(leaves[i].conditions)

        return Step('L%dx' % i)

    root = build(ns, spec, make)
    ctx.event('task', show(spec), [(l.hold, l.conditions) for l in leaves])
    return root, spec, leaves


def recording_supportive(ctx, rec, max_leaves=4, knobs=None, **kw):
    """A real supportive model whose calls are recorded."""
    ch = ctx.ch
    ns = loader.load()
    root, spec, leaves = supportive_task(ctx, max_leaves=max_leaves, **kw)

    class RecSupportive(ns.supportive.SupportivePOMDP):

        def sample_transition(self, a, s, *args, **kwargs):
            rec.before_call('sample_transition')
            out = super(RecSupportive, self).sample_transition(
                a, s, *args, **kwargs)
            rec.after_transition(a, s, out)
            return out

        def sample_start(self):
            rec.before_call('sample_start')
            return super(RecSupportive, self).sample_start()

    if knobs is None:
        knobs = random_knobs(ch)
    for k, v in knobs.items():
        setattr(RecSupportive, k, v)
    ctx.event('knobs', knobs)
    model = RecSupportive(root, discount=ch.pick([1., .9]))
    model.spec, model.leaf_specs = spec, leaves
    return model


def random_knobs(ch):
    return {
        'p_fail': ch.pick([.01, 0., .3, .9]),
        'p_consume_all': ch.pick([.5, 0., 1.]),
        'p_changed_by_human': ch.pick([.01, 0., .2]),
        'p_change_preference': ch.pick([.01, 0., .3]),
        'p_preferences': [ch.pick([.3, 0., 1.])],
        'reward_independent_preference': ch.chance(.3),
    }
