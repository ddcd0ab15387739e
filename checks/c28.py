"""C28: equal conditions, actions, states and beliefs behave and hash
identically."""
import copy
import pickle

import numpy as np

from sim import loader

ID = 'C28'
RUNS = {'quick': 12000, 'thorough': 200000}
TECHNIQUE = ('deterministic simulation of observers in different processes '
             'exchanging the conditions, actions, states and beliefs they '
             'recorded, over a channel that reorders, duplicates, re-encodes '
             'and damages them; oracle is equality of the plain values')
RULE = ('random conditions (flat or in several dimensions), actions with and '
        'without conditions, placements of parts and nested meta-actions, '
        'each rebuilt for every message in another array type, layout or '
        'order, copied or pickled; two observers receive the same messages '
        'in other orders; non-trivial: ten messages with two encodings of '
        'one object')
COMPONENTS = {
    'real': ['task_models.action', 'task_models.snap_circuit',
             'task_models.task (actions, meta-actions)',
             'task_models.state', 'task_models.lib.belief (array beliefs)',
             'pickle', 'copy'],
    'stub': ['observers and their channel']}
ASSUMPTIONS = ['masks of zeros and ones, finite values, of the same shape '
               'as the states',
               'one board for all parts',
               'sequences of actions are given as lists, parallel actions '
               'as sets']
PROBES = ('condition', 'match-all', 'abstract', 'pre-post', 'place', 'meta',
          'nested-meta', 'pickled', 'copied', 'several-dimensions',
          'other-type', 'other-layout', 'negative-zero', 'rejected',
          'accepted', 'verdict-true', 'verdict-false', 'renamed',
          'near-miss', 'mixed-kinds', 'state', 'board', 'part', 'belief',
          'other-size')
FAULTS = ('reordered', 'duplicated', 're-encoded', 'damaged', 'lost')
CLOSE = 1 + 2. ** -20       # not 1
VALUES = [0, 0, 1, 1, 2, -1, .5, 255, -2.25, CLOSE, 2. ** -40]
FLOATS = ('float64', 'float32', 'float16')
INTS = ('int8', 'int16', 'int64', 'uint8', 'uint64')


def setup():
    loader.load()


class Encoder:
    """Real objects for plain ones; another array type, layout, order or
    history each time."""

    def __init__(self, ctx, ns):
        self.ctx, self.ch, self.ns = ctx, ctx.ch, ns
        self.shape = self.ch.pick([(1,), (2,), (3,), (5,), (2, 2), (2, 1, 3)])
        if len(self.shape) > 1:
            ctx.probe('several-dimensions')
        self.dim = int(np.prod(self.shape))
        self.plain = self.ch.chance(.2)
        self.board = self.ch.pick([(1, 2), (2, 2), (2, 1)])

    def types(self, v):
        t = [f for f in FLOATS if all(np.dtype(f).type(x) == x for x in v)]
        if all(x == int(x) for x in v):
            for n in INTS:
                i = np.iinfo(n)
                if all(i.min <= x <= i.max for x in v):
                    t.append(n)
        if all(x in (0, 1) for x in v):
            t.append('bool')
        return t

    def shape_of(self, v):
        return self.shape if len(v) == self.dim else (len(v),)

    def array(self, v):
        ch = self.ch
        if self.plain:
            return np.array(v, float).reshape(self.shape_of(v))
        t = ch.pick(self.types(v))
        if t != 'float64':
            self.ctx.probe('other-type')
        shape = self.shape_of(v)
        a = np.array(v).astype(t).reshape(shape)
        if t in FLOATS and ch.chance(.3):
            self.ctx.probe('negative-zero')
            a = np.where(a == 0, np.array(-0., t), a)
        k = ch.draw(5)
        if k == 1:
            a = np.asfortranarray(a)
        elif k == 2:
            b = np.zeros((3,) + shape, a.dtype)
            b[1] = a
            a = b[1]
        elif k == 3:
            b = np.zeros(shape[:-1] + (2 * shape[-1],), a.dtype)
            b[..., ::2] = a
            a = b[..., ::2]
        elif k == 4:
            a = a.copy()
            a.flags.writeable = False
        if k:
            self.ctx.probe('other-layout')
        return a

    def vector(self, v, types=None):
        ch = self.ch
        if self.plain:
            return np.array(v, float)
        a = np.array(v).astype(ch.pick(types or self.types(v)))
        if ch.chance(.3):
            b = np.zeros((len(v), 2), a.dtype)
            b[:, 0] = a
            a = b[:, 0]
        return a

    def condition(self, c):
        if c == 'all':
            return self.ns.action.MatchAllCondition()
        return self.ns.action.Condition(self.array(c[0]), self.array(c[1]))

    def build(self, x):
        ns, ch = self.ns, self.ch
        kind = x[0]
        if kind == 'condition':
            return self.condition(x[1])
        if kind == 'abstract':
            if ch.chance(.2):
                return ns.task.AbstractAction(x[1], agent='robot')
            if ch.chance(.2):
                self.ctx.probe('renamed')
                return ns.task.AbstractAction(x[1][1:]).copy(
                    rename_format=x[1][:1] + '{}')
            return ns.task.AbstractAction(x[1])
        if kind == 'pre-post':
            a = ns.action.PrePostConditionAction(
                self.condition(x[1]), self.condition(x[2]),
                name='n%d' % ch.draw(3))
            return a
        if kind == 'place':
            board, part, loc = x[1:]
            p = ns.snap_circuit.SnapCircuitPart(
                ch.pick([int, np.int64])(part), 'part%d' % part)
            return ns.snap_circuit.PlaceAction(
                ch.pick([tuple, list])(board), p, ch.pick([tuple, list])(loc))
        if kind == 'state':
            return ns.state.NDimensionalState(self.vector(x[1]))
        if kind == 'part':
            return ns.snap_circuit.SnapCircuitPart(
                ch.pick([int, np.int64])(x[1]), x[2])
        if kind == 'board':
            ps = [(l, ns.snap_circuit.SnapCircuitPart(p, 'part%d' % p))
                  for l, p in ch.shuffled(sorted(x[2]))]
            ps += ps[:ch.draw(2)]
            return ns.snap_circuit.SnapCircuitState(
                ch.pick([tuple, list])(x[1]), ch.pick([list, set, tuple])(ps))
        if kind == 'belief':
            v = self.vector(x[1], FLOATS[:2])
            return ns.belief.ArrayBelief(v.tolist() if ch.chance(.3) else v)
        _, how, members = x
        if how == 'parallel':
            ms = set(self.build(m) for m in ch.shuffled(sorted(
                members, key=repr)))
        else:
            ms = [self.build(m) for m in members]
        return ns.task.MetaAction(how, ms)

    def message(self, x):
        """As it arrives: maybe copied or sent by another process."""
        o = self.build(x)
        k = self.ch.draw(6)
        if k == 0:
            self.ctx.probe('pickled')
            o = pickle.loads(pickle.dumps(o, self.ch.pick([2, 4])))
        elif k == 1:
            self.ctx.probe('copied')
            o = copy.deepcopy(o)
        elif k == 2:
            self.ctx.probe('copied')
            o = copy.copy(o)
        return o


# Plain objects ----------------------------------------------------------------

def condition(ch, e):
    if ch.chance(.1):
        return 'all'
    mask = tuple(ch.draw(2) for _ in range(e.dim))
    return (mask, tuple(ch.pick(VALUES) if m else 0 for m in mask))


def near(ch, e, c):
    """Another condition, one place away."""
    if c == 'all':
        return ((0,) * e.dim, (0,) * e.dim)
    if len(c[0]) == e.dim and ch.chance(.15):   # in a larger space
        return (c[0] + (0,), c[1] + (0,))
    i = ch.draw(e.dim)
    mask, value = list(c[0]), list(c[1])
    if mask[i] and ch.chance(.5):
        value[i] = CLOSE if value[i] == 1 and ch.chance(.5) else \
            ch.pick(VALUES)
    else:
        mask[i] = 1 - mask[i]
        value[i] = 0
    return (tuple(mask), tuple(value))


def place(ch, board):
    return ('place', board, ch.draw(3), (ch.draw(board[0]),
                                         ch.draw(board[1]), ch.draw(4)))


def obj(ctx, e, known, depth=2):
    ch = ctx.ch
    if known and ch.chance(.3):
        x = ch.pick(known)
        if x[0] == 'condition':
            ctx.probe('near-miss')
            return ('condition', near(ch, e, x[1]))
        if x[0] == 'pre-post':
            ctx.probe('near-miss')
            if ch.chance(.3):
                return ('pre-post', x[2], x[1])
            return ('pre-post', x[1], near(ch, e, x[2]))
        if x[0] == 'meta' and depth:
            ctx.probe('near-miss')
            return meta(ch, ch.pick(['sequence', 'parallel', 'alternative']),
                        x[2] if ch.chance(.5) else ch.shuffled(list(x[2])))
    k = ch.pick(['condition', 'condition', 'abstract', 'pre-post', 'pre-post',
                 'place', 'meta' if depth else 'abstract'] +
                (['state', 'belief', 'board', 'part'] if depth == 2 else []))
    ctx.probe(k)
    if k in ('state', 'belief', 'board', 'part'):
        return value(ctx, e, known, k)
    if k == 'condition':
        c = condition(ch, e)
        if c == 'all':
            ctx.probe('match-all')
        return (k, c)
    if k == 'abstract':
        return (k, ch.pick('abc') + ch.pick(['', 'a', 'é']))
    if k == 'pre-post':
        return (k, condition(ch, e), condition(ch, e))
    if k == 'place':
        return place(ch, e.board)
    members = [obj(ctx, e, known, depth - 1) for _ in range(ch.between(1, 3))]
    members = [('abstract', 'a') if m[0] == 'condition' else m
               for m in members]
    if any(m[0] == 'meta' for m in members):
        ctx.probe('nested-meta')
    return meta(ch, ch.pick(['sequence', 'parallel', 'alternative']), members)


def value(ctx, e, known, k):
    ch = ctx.ch
    if k == 'state':
        v = [ch.pick(VALUES) for _ in range(ch.between(1, 3))]
        old = [x[1] for x in known if x[0] == k]
        if old and ch.chance(.5):
            v = list(ch.pick(old))
            if ch.chance(.5):
                i = ch.draw(len(v))
                v[i] = {1: CLOSE, CLOSE: 1}.get(v[i], ch.pick(VALUES)) \
                    if ch.chance(.3) else ch.pick(VALUES)
            else:
                ctx.probe('other-size')
                v.insert(ch.draw(len(v) + 1), ch.pick([0, v[-1]]))
        return (k, tuple(v))
    if k == 'belief':
        n = ch.between(1, 4)
        old = [x[1] for x in known if x[0] == k]
        if old and ch.chance(.5):
            v = list(ch.pick(old))
            if ch.chance(.5):
                v = ch.shuffled(v)
            else:
                ctx.probe('other-size')
                v.insert(ch.draw(len(v) + 1), 0.)
            return (k, tuple(v))
        v = [0.] * n
        for _ in range(8):
            v[ch.draw(n)] += 1 / 8
        return (k, tuple(v))
    if k == 'part':
        return (k, ch.draw(3), ch.pick(['part0', 'part1', 'part2']))
    ps = set(((ch.draw(e.board[0]), ch.draw(e.board[1]), ch.draw(4)),
              ch.draw(3)) for _ in range(ch.draw(4)))
    board = e.board
    old = [x for x in known if x[0] == k]
    if old and ch.chance(.5):
        ps = set(ch.pick(old)[2])
        if ch.chance(.5):
            ps.symmetric_difference_update([((0, 0, ch.draw(4)), ch.draw(3))])
        else:
            ctx.probe('other-size')
            board = (board[0] + 1, board[1])
    return (k, board, frozenset(ps))


def meta(ch, how, members):
    if how == 'parallel':
        return ('meta', how, frozenset(members))
    return ('meta', how, tuple(members))


def accepts(c, s):
    return c == 'all' or all(v == (f if m else 0)
                             for m, v, f in zip(c[0], c[1], s))


def verdict(x, before, after):
    if x[0] == 'pre-post':
        return accepts(x[1], before) and accepts(x[2], after)
    return True     # nothing but conditions restricts


# ------------------------------------------------------------------------------

def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    e = Encoder(ctx, ns)
    damaged(ctx, e)
    known, sent = [], []
    for _ in range(ch.between(3, 12)):
        x = obj(ctx, e, known)
        if x not in known:
            known.append(x)
        for _ in range(ch.pick([1, 1, 2, 3])):
            sent.append(x)
    if len(set(x[0] for x in known)) > 2:
        ctx.probe('mixed-kinds')
    lost = [i for i in range(len(sent)) if ch.chance(.05)]
    ctx.fault('lost', len(lost))
    sent = [x for i, x in enumerate(sent) if i not in lost]
    for x in known:
        ctx.event('object', show(x))
    a = observe(ctx, e, sent, known)
    if ch.chance(.5):
        b = observe(ctx, e, sent, known)
        ctx.check(set(a) == set(b) and len(set(a)) == len(set(b)), 'observers',
                  'two observers of the same messages keep different sets')
    ctx.sim_time += len(sent)
    ctx.nontrivial = len(sent) >= 10 and len(sent) > len(set(sent))
    ctx.sample = {'objects': len(known), 'messages': len(sent)}


def show(x):
    return repr(sorted(x, key=repr) if isinstance(x, frozenset) else
                [show(y) for y in x] if isinstance(x, tuple) else x)


def observe(ctx, e, sent, known):
    ch = ctx.ch
    order = ch.shuffled(list(range(len(sent))))
    if order != sorted(order):
        ctx.fault('reordered')
    kept, names = [], []        # first object for each plain value
    index, bag = {}, set()
    for i in order:
        for _ in range(2 if ch.chance(.1) else 1):
            x = sent[i]
            o = e.message(x)
            ctx.event('message', show(x), type(o).__name__)
            if x in names:
                ctx.fault('duplicated')
                ctx.fault('re-encoded')
            compare(ctx, x, o, names, kept)
            ctx.check((o in bag) == (x in names) and
                      (o in index) == (x in names), 'membership', lambda:
                      '{} is {} among what was received'.format(
                          show(x), 'not found' if x in names else 'found'))
            if x not in names:
                names.append(x)
                kept.append(o)
                index[o] = x
            ctx.check(index[o] == x, 'membership', lambda: '{} is taken for '
                      '{}'.format(show(x), show(index[o])))
            bag.add(o)
            ctx.check(len(bag) == len(names), 'membership', lambda: '{} kept '
                      'as {} objects'.format(len(names), len(bag)))
    ctx.check(ch.shuffled(kept) is not None and set(kept) == bag, 'membership',
              'sets of the same objects differ')
    for x, o in zip(names, kept):
        judge(ctx, e, x, o)
        judge(ctx, e, x, e.message(x), o)
    return kept


def compare(ctx, x, o, names, kept):
    h = hash(o)
    ctx.check(o == o and not (o != o) and hash(o) == h, 'equality',
              lambda: '{} differs from itself'.format(show(x)))
    for y, p in zip(names, kept):
        same = x == y
        ctx.check((o == p) == same and (p == o) == same and
                  (o != p) != same and (p != o) != same, 'equality', lambda:
                  '{} and {} compare {}, {}'.format(
                      show(x), show(y), o == p, p == o))
        if same:
            ctx.check(hash(p) == h, 'hash', lambda: 'two objects for {} are '
                      'equal and hash differently'.format(show(x)))


def judge(ctx, e, x, o, other=None):
    """Verdicts on states and transitions."""
    ch = ctx.ch
    if x[0] == 'place':
        return placed(ctx, e, x, o)
    if x[0] in ('state', 'board', 'part', 'belief'):
        return content(ctx, x, o)
    cs = [c for c in x[1:] if c != 'all'] \
        if x[0] in ('condition', 'pre-post') else []
    if any(len(c[0]) != e.dim for c in cs):
        ctx.probe('other-size')     # says nothing on states of this size
        return
    for _ in range(2):
        s = [sample(ch, e, x[1 + i] if x[0] in ('condition', 'pre-post') and
                    len(x) > 1 + i else 'all') for i in range(2)]
        states = [e.ns.state.NDimensionalState(e.array(v)) for v in s]
        before = [st.get_features().copy() for st in states]
        if x[0] == 'condition':
            got, want = o.check(states[0]), accepts(x[1], s[0])
        else:
            got, want = o.check(*states), verdict(x, *s)
        ctx.probe('verdict-true' if want else 'verdict-false')
        ctx.check(bool(got) == want, 'verdict', lambda: '{} {} {}'.format(
            show(x), 'accepts' if got else 'refuses', s))
        ctx.check(all(np.array_equal(b, st.get_features())
                      for b, st in zip(before, states)), 'changed',
                  'checking a state changed it')
    if other is not None:
        ctx.check(o == other and hash(o) == hash(other), 'changed',
                  lambda: 'checking changed {}'.format(show(x)))


def sample(ch, e, c):
    """Features, often those the condition wants."""
    v = [ch.pick(VALUES) for _ in range(e.dim)]
    if c != 'all' and ch.chance(.8):
        v = [w if m else f for m, w, f in zip(c[0], c[1], v)]
        if ch.chance(.3):
            v[ch.draw(e.dim)] = ch.pick(VALUES)
        elif ch.chance(.3) and 1 in v:
            v[v.index(1)] = CLOSE
    return v


def placed(ctx, e, x, o):
    ch, sc = ctx.ch, e.ns.snap_circuit
    board, part, loc = x[1:]

    def board_with(there):
        ps = set()
        for _ in range(ch.draw(4)):
            ps.add(((ch.draw(board[0]), ch.draw(board[1]), ch.draw(4)),
                    ch.draw(3)))
        ps.discard((loc, part))
        if there:
            ps.add((loc, part))
        return sc.SnapCircuitState(board, [
            (l, sc.SnapCircuitPart(p, 'part%d' % p))
            for l, p in ch.shuffled(sorted(ps))])

    for _ in range(2):
        b, a = ch.chance(.3), ch.chance(.7)
        got = o.check(board_with(b), board_with(a))
        want = not b and a
        ctx.probe('verdict-true' if want else 'verdict-false')
        ctx.check(bool(got) == want, 'verdict', lambda: '{} {} a part {} '
                  'before and {} after'.format(
                      show(x), 'accepts' if got else 'refuses',
                      'there' if b else 'not there',
                      'there' if a else 'not there'))


def content(ctx, x, o):
    """What is read from it is what it was made of."""
    h = hash(o)
    if x[0] == 'state':
        got = np.asarray(o.get_features())
        ok = got.shape == (len(x[1]),) and tuple(got.tolist()) == x[1] and \
            o.n_dim == len(x[1])
    elif x[0] == 'belief':
        ok = tuple(o.to_list()) == x[1] and \
            tuple(np.asarray(o.array).tolist()) == x[1]
    elif x[0] == 'part':
        ok = o.id == x[1] and o.label == x[2]
    else:
        there = o.parts
        ok = set((tuple(l), p.id) for l, p in there) == x[2] and \
            len(there) == len(x[2])
        there.clear()       # of its own: the state keeps its parts
        f = o.get_features()
        ok = ok and len(o.parts) == len(x[2]) and f.sum() == len(x[2]) and \
            f.shape == (o.n_dim,) and set(np.unique(f)) <= {0, 1} and \
            hash(o) == h
        g = np.reshape(f, (-1,) + x[1] + (4,))
        ok = ok and all(g[(p,) + l] == 1 for l, p in x[2])
    ctx.check(ok, 'content', lambda: '{} gives {!r}'.format(show(x), vars(o)))


def damaged(ctx, e):
    """A condition whose values do not fit its mask is refused."""
    ch = ctx.ch
    for _ in range(3):
        c = condition(ch, e)
        if c == 'all':
            continue
        mask, value = list(c[0]), list(c[1])
        i = ch.draw(e.dim)
        k = ch.draw(3)
        if k == 0:
            value[i] = ch.pick(VALUES)
        elif k == 1:
            mask[i] = 1 - mask[i]
        else:
            value = ch.shuffled(value)
        bad = any(v != 0 and m == 0 for m, v in zip(mask, value))
        try:
            e.ns.action.Condition(e.array(mask), e.array(value))
        except ValueError:
            ctx.probe('rejected')
            ctx.check(bad, 'rejected', lambda: 'condition {} on {} '
                      'refused'.format(value, mask))
        else:
            ctx.probe('accepted')
            ctx.check(not bad, 'accepted', lambda: 'condition {} on {} '
                      'accepted'.format(value, mask))
        if bad:
            ctx.fault('damaged')
