"""C33: random outcomes occur as often as stated."""
import itertools
import math

import numpy as np

from sim import htm, loader, models, planner, supspec

ID = 'C33'
RUNS = {'quick': 1200, 'thorough': 80000}
TECHNIQUE = ('deterministic simulation with a seeded generator: several '
             'sources of random outcomes are used in interleaved batches; '
             'oracle is the exact distribution of each source, computed '
             'independently, with a large-deviation bound')
RULE = ('one to three sources per run (matrix models, array and particle '
        'beliefs and their successors, supportive tasks at random states and '
        'their starts, roll-outs of the planner), all probabilities random '
        'including 0 and 1; draws interleaved in batches; every outcome, '
        'every feature and every pair of features is counted; non-trivial: a '
        'source with two possible outcomes was drawn 400 times')
COMPONENTS = {
    'real': ['task_models.lib.pomdp', 'task_models.lib.belief',
             'task_models.lib.pomcp', 'task_models.supportive'],
    'stub': ['numpy.random (seeded)']}
ASSUMPTIONS = ['numpy\'s generator is fair',
               'a deviation whose probability is below 1e-12 is a violation',
               'how often unneeded holds are accepted and questions go '
               'unanswered is stated as "seldom" only']
SOURCES = ('matrix', 'matrix-start', 'array-belief', 'particle-belief',
           'particle-start', 'particle-successor', 'supportive',
           'supportive-start', 'roll-outs', 'roll-out-starts', 'successors')
PROBES = SOURCES + ('certain', 'impossible', 'seldom', 'interleaved', 'pairs',
                    'unneeded-hold', 'question', 'reseeded')
FAULTS = ('action-failed', 'object-changed-by-human', 'preference-changed')
BOUND = 30.     # nats


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    sources = []
    for _ in range(ch.between(1, 3)):
        kind = ch.weighted([(3 if k == 'supportive' else 1, k)
                            for k in SOURCES])
        src = MAKE[kind](ctx)
        src.kind = kind
        ctx.probe(kind)
        ctx.event('source', kind, src.what)
        sources.append(src)
    budget = ch.pick([400, 800, 1600])
    left = {i: budget for i in range(len(sources))}
    if len(sources) > 1:
        ctx.probe('interleaved')
    while left:
        i = ch.pick(sorted(left))
        n = min(left[i], ch.pick([50, 200, 400]))
        for _ in range(n):
            sources[i].draw()
        left[i] -= n
        if not left[i]:
            del left[i]
        if ch.chance(.1):
            # draws from elsewhere
            ctx.probe('reseeded')
            np.random.seed(ch.draw(1 << 16))
    for src in sources:
        src.judge()
    ctx.sim_time += sum(s.n for s in sources)
    ctx.nontrivial = any(s.n >= 400 and s.several for s in sources)
    ctx.sample = {'sources': [s.kind for s in sources], 'draws':
                  [s.n for s in sources]}


def far(k, n, p):
    """Is k out of n impossible to believe for probability p?"""
    p = min(1., max(0., p))
    q = k / float(n)
    d = 0.
    for x, y in ((q, p), (1 - q, 1 - p)):
        if x > 0:
            if y < 1e-12:
                return True
            d += x * math.log(x / y)
    return n * d > BOUND


class Source:

    what = ()

    def __init__(self, ctx):
        self.ctx = ctx
        self.counts = {}
        self.n = 0

    def draw(self):
        for k in self.sample():
            self.counts[k] = self.counts.get(k, 0) + 1
            self.n += 1

    def judge(self):
        """dist: outcome -> probability."""
        dist = {k: p for k, p in self.dist().items()}
        self.several = sum(p > 0 for p in dist.values()) > 1
        for k in sorted(set(dist) | set(self.counts), key=str):
            self.event('{}'.format(k), self.counts.get(k, 0), dist.get(k, 0.))
        # features and pairs of features of the outcomes
        width = {len(k) if isinstance(k, tuple) else 1
                 for k in set(dist) | set(self.counts)}
        if width != {1} and len(width) == 1:
            w = width.pop()
            parts = [(i,) for i in range(w)]
            if w <= 8:
                parts += list(itertools.combinations(range(w), 2))
                self.ctx.probe('pairs')
            for part in parts:
                a, b = {}, {}
                for to, d in ((a, self.counts), (b, dist)):
                    for k, x in d.items():
                        kk = tuple(k[i] for i in part)
                        to[kk] = to.get(kk, 0) + x
                for kk in sorted(set(a) | set(b), key=str):
                    self.event('{} (parts {})'.format(kk, part), a.get(kk, 0),
                               b.get(kk, 0.))

    def event(self, what, k, p):
        ctx = self.ctx
        if p >= 1 - 1e-12:
            ctx.probe('certain')
        elif p <= 1e-12:
            ctx.probe('impossible')
        elif p < .05:
            ctx.probe('seldom')
        ctx.check(not far(k, self.n, p), 'frequency', lambda: '{} {}: outcome '
                  '{} occurred {} times out of {}, its probability is {:.4g}'
                  .format(self.kind, self.what, what, k, self.n, p))


class Matrix(Source):

    def __init__(self, ctx, start=False):
        Source.__init__(self, ctx)
        ch = ctx.ch
        self.m, (self.T, self.O, _, self.s0, _) = models.random_pomdp(ctx)
        self.start = start
        self.a, self.s = ch.draw(self.O.shape[0]), ch.draw(self.O.shape[1])
        self.what = () if start else (self.a, self.s)

    def sample(self):
        if self.start:
            return [int(self.m.sample_start())]
        s, o, _ = self.m.sample_transition(self.a, self.s)
        return [(int(s), int(o))]

    def dist(self):
        if self.start:
            return dict(enumerate(map(float, self.s0)))
        return {(s, o): float(self.T[self.a, self.s, s] * self.O[self.a, s, o])
                for s in range(self.O.shape[1])
                for o in range(self.O.shape[2])}


class ABelief(Source):

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        ch = ctx.ch
        n = ch.between(1, 12)
        x = [ch.pick([0, 1, 1, 2, 5, 50]) for _ in range(n)]
        if not any(x):
            x[ch.draw(n)] = 1
        self.p = [v / float(sum(x)) for v in x]
        self.b = loader.load().belief.ArrayBelief(
            ch.pick([list, np.array])(self.p))
        self.what = tuple(x)

    def sample(self):
        return [int(self.b.sample())]

    def dist(self):
        return dict(enumerate(self.p))


class PBelief(Source):
    """Draws from a belief made of particles."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        ch = ctx.ch
        n = ch.between(1, 30)
        parts = [ch.draw(5) for _ in range(n)]
        feed = iter(parts)
        self.b = loader.load().belief.ParticleBelief(lambda: next(feed), 5, n)
        self.p = {i: parts.count(i) / float(n) for i in range(5)}
        self.what = tuple(sorted(parts))

    def sample(self):
        return [int(self.b.sample())]

    def dist(self):
        return self.p


class PStart(Source):
    """Particles of new beliefs."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        self.m, (_, self.O, _, self.s0, _) = models.random_pomdp(ctx)

    def sample(self):
        b = loader.load().belief.ParticleBelief(
            self.m.sample_start, self.m.n_states, 5)
        return [int(s) for s in b.part_states]

    def dist(self):
        return dict(enumerate(map(float, self.s0)))


class PSuccessor(Source):
    """Particles of successor beliefs follow Bayes' rule."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        ch = ctx.ch
        self.m, (T, O, _, _, _) = models.random_pomdp(ctx)
        n = ch.pick([4, 10])
        parts = [ch.draw(self.m.n_states) for _ in range(n)]
        feed = iter(parts)
        self.b = loader.load().belief.ParticleBelief(
            lambda: next(feed), self.m.n_states, n)
        b = np.bincount(parts, minlength=self.m.n_states) / float(n)
        self.a = ch.draw(self.m.n_actions)
        joint = (b.dot(T[self.a]))[:, None] * O[self.a]
        # an observation frequent enough never to give up
        self.o = int(joint.sum(0).argmax())
        self.p = joint[:, self.o] / joint[:, self.o].sum()
        self.what = (self.a, self.o, tuple(parts))

    def sample(self):
        b = self.b.successor(self.m, self.a, self.o)
        return [int(s) for s in b.part_states]

    def dist(self):
        return dict(enumerate(map(float, self.p)))


def supportive(ctx):
    """(model, spec) with any probabilities."""
    ch = ctx.ch
    model, sp, calls, _ = supspec.random_model(ctx, max_leaves=4)
    ps = [0., 1., .01, .05, .3, .5, .7, .95]
    for k in ('p_fail', 'p_consume_all', 'p_changed_by_human',
              'p_change_preference'):
        if ch.chance(.7):
            sp.k[k] = ch.pick(ps)
            setattr(type(model), k, sp.k[k])
    if ch.chance(.7):
        sp.k['p_preferences'] = [ch.pick(ps) for _ in sp.k['preferences']]
        type(model).p_preferences = sp.k['p_preferences']
    sp._seen.clear()
    return model, sp


def flips(n, p):
    """[(flips, probability)] of n independent features."""
    for f in itertools.product((0, 1), repeat=n):
        w = 1.
        for x in f:
            w *= p if x else 1 - p
        if w > 0:
            yield f, w


class Supportive(Source):

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        ch = ctx.ch
        self.m, self.sp = supportive(ctx)
        self.seen = {}
        sp = self.sp
        s = ch.draw(sp.n_states)
        self.s = s & ~(1 << len(sp.objects))
        self.a = supspec.random_action(ch, sp, self.s)
        if ch.chance(.3):
            # at the start, so that something happens
            h, prefs, _, objs = sp.decode(self.s)
            self.s = sp.encode(ch.draw(sp.clean), prefs, 0, objs)
        self.what = (sp.actions[self.a], sp.show(self.s), sorted(
            (k, v) for k, v in sp.k.items() if k.startswith('p_')))
        self.open, self._dist = self.distribution()

    def distribution(self):
        """(name of the rate that is not stated or None, outcome -> p)"""
        sp, k = self.sp, self.sp.k
        name = sp.actions[self.a]
        h, prefs, _, objs = sp.decode(self.s)
        leaf = sp.leaves[sp.node_leaf[h]] if h < sp.clean else None
        n, m = len(objs), len(prefs)
        rate = None
        if name == 'ask hold':
            rate = 'question'
        elif name.startswith('hold') and leaf and not (
                leaf.hold == name[-1].lower() and
                all(f[0][0] ^ prefs[0] for f in
                    flips(m, k['p_change_preference']))):
            rate = 'unneeded-hold'
        dist = {}
        for fo, wo in flips(n, k['p_changed_by_human']):
            o1 = tuple(x ^ y for x, y in zip(objs, fo))
            for fp, wp in flips(m, k['p_change_preference']):
                p1 = tuple(x ^ y for x, y in zip(prefs, fp))
                if rate == 'unneeded-hold':
                    outs = [((), 1.)]
                elif rate == 'question':
                    outs = [(o1, 1.)]
                else:
                    outs = self.after(h, leaf, name, p1, o1)
                for out, w in outs:
                    key = p1 + out
                    dist[key] = dist.get(key, 0.) + wo * wp * w
        return rate, dist

    def after(self, h, leaf, name, prefs, objs):
        """[(objects + (observation,), probability)]"""
        sp, k = self.sp, self.sp.k
        if name in ('wait', 'hold H', 'hold V'):
            if leaf is None:
                fail = h == sp.clean and name != 'wait'
                return [(objs + ('fail' if fail else 'none',), 1.)]
            outs = [(objs, 1.)]
            for c, o in leaf.conditions:
                i = sp.objects.index(o)
                p = {sp.CONSUMES: 1., sp.USES: 0.}.get(c, k['p_consume_all'])
                outs = [(x[:i] + (v,) + x[i + 1:], w * q) for x, w in outs
                        for v, q in ((0, p), (1, 1. - p)) if q > 0]
            return [(x + ('none',), w) for x, w in outs]
        verb, obj = name.split(' ', 1)
        i = sp.objects.index(obj)
        want = int(verb == 'bring')
        if objs[i] == want:
            return [(objs + ('not-found',), 1.)]
        p = k['p_fail']
        return [(objs + ('fail',), p),
                (objs[:i] + (want,) + objs[i + 1:] + ('none',), 1. - p)]

    def sample(self):
        sp = self.sp
        s2, o, _ = self.m.sample_transition(self.a, self.s)
        _, prefs, _, objs = sp.decode(int(s2))
        obs = sp.observations[int(o)]
        self.seen[obs] = self.seen.get(obs, 0) + 1
        if self.open == 'unneeded-hold':
            return [prefs]
        if self.open == 'question':
            return [prefs + objs]
        return [prefs + objs + (obs,)]

    def dist(self):
        return self._dist

    def judge(self):
        Source.judge(self)
        ctx, sp, k = self.ctx, self.sp, self.sp.k
        h, prefs, _, objs = sp.decode(self.s)
        if any(0 < k[p] for p in ('p_changed_by_human',)) and objs:
            ctx.fault('object-changed-by-human')
        if k['p_change_preference'] > 0:
            ctx.fault('preference-changed')
        if self.seen.get('fail') and sp.actions[self.a].split()[0] in (
                'bring', 'clear'):
            ctx.fault('action-failed')
        if self.open:
            ctx.probe(self.open)
        if self.open == 'question':
            # most questions are answered
            self.event('no answer', max(0, self.seen.get('none', 0) -
                                        self.n // 2), 0.)
        if self.open == 'unneeded-hold':
            # most unneeded holds are refused (those that turn out to be
            # needed after a change of preference are not)
            leaf = sp.leaves[sp.node_leaf[h]]
            p = k['p_change_preference']
            needed = 0.
            if leaf.hold == sp.actions[self.a][-1].lower():
                needed = p if not prefs[0] else 1 - p
            got = self.seen.get('none', 0) / float(self.n)
            least, most = needed, needed + .5 * (1 - needed)
            if got < least:
                self.event('accepted holds', self.seen.get('none', 0), least)
            if got > most:
                self.event('accepted holds', self.seen.get('none', 0), most)


class SupStart(Source):
    """Features of starts."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        self.m, self.sp = supportive(ctx)
        self.first = {}
        self.what = sorted((k, v) for k, v in self.sp.k.items()
                           if k.startswith('p_'))

    def sample(self):
        h, prefs, _, objs = self.sp.decode(int(self.m.sample_start()))
        self.first[h] = self.first.get(h, 0) + 1
        return [prefs + objs]

    def dist(self):
        k = self.sp.k
        dist = {}
        for fo, wo in flips(len(self.sp.objects), k['p_changed_by_human']):
            for prefs in itertools.product((0, 1), repeat=self.sp.n_prefs):
                w = wo
                for x, p in zip(prefs, k['p_preferences']):
                    w *= p if x else 1 - p
                if w > 0:
                    dist[prefs + fo] = w
        return dist

    def judge(self):
        Source.judge(self)
        every(self, [self.sp.node_leaf[h] for h in self.first],
              self.sp.firsts, 'starts with')


def every(src, seen, legal, how):
    """Everything that the task allows happens sometimes."""
    sp = src.sp
    # probability of missing one of n equally likely positions
    n = len(sp.node_leaf)
    if src.n * math.log(n / (n - 1.) if n > 1 else 2) < BOUND:
        return
    src.ctx.check(set(seen) == set(legal), 'never', lambda: '{} draws: the '
                  'task {} only {}, and {} is allowed by {}'.format(
                      src.n, how, sorted(set(seen), key=str),
                      sorted(legal, key=str), htm.show(sp.spec)))


class Successors(Source):
    """What follows a subtask."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        self.m, self.sp = supportive(ctx)
        sp = self.sp
        h = ctx.ch.draw(sp.clean)
        self.s = sp.encode(h, (0,) * sp.n_prefs, 0, (0,) * len(sp.objects))
        self.h, self.next = h, {}
        self.what = (sp.show(self.s),)

    def sample(self):
        s2, _, _ = self.m.sample_transition(0, self.s)
        h = self.sp.decode(int(s2))[0]
        self.next[h] = self.next.get(h, 0) + 1
        return [0]

    def dist(self):
        return {0: 1.}

    def judge(self):
        Source.judge(self)
        sp = self.sp
        self.ctx.check(set(self.next) <= set(range(sp.clean + 1)), 'never',
                       lambda: 'subtask {} is followed by {}'.format(
                           self.h, self.next))
        # (several positions may stand for the same subtask, each after
        # subtasks of its own)
        may = {sp.node_leaf[i] if i < sp.clean else None
               for i in sp.after(self.h)}
        if sp.node_leaf.count(sp.node_leaf[self.h]) == 1:
            every(self, [sp.node_leaf[i] if i < sp.clean else None
                         for i in self.next], may, 'goes on with')
        self.several = len(may) > 1


class RollOuts(Source):
    """Actions of the roll-outs of the planner."""

    def __init__(self, ctx):
        Source.__init__(self, ctx)
        ch = ctx.ch
        ns = loader.load()
        arrays = planner.random_arrays(ch)
        T, O, R, start, d = arrays
        self.m = ns.pomdp.POMDP(T, O, R, start, d)
        self.calls = []
        orig = self.m.sample_transition

        def sample_transition(a, s):
            self.calls.append(int(a))
            return orig(a, s)

        self.m.sample_transition = sample_transition
        self.horizon = ch.between(2, 6)
        self.rollouts = ch.pick([1, 5, 20])
        self.ns = ns
        self.what = (self.m.n_actions, self.horizon, self.rollouts)

    def sample(self):
        ns = self.ns
        pol = ns.pomcp.POMCPPolicyRunner(
            self.m, iterations=1, rollout_it=self.rollouts,
            horizon=self.horizon, exploration=1.)
        del self.calls[:]
        pol.get_action()
        per = self.horizon - 1
        return list(self.calls[-per * self.rollouts:]) if \
            len(self.calls) >= per * self.rollouts + 1 else []

    def draw(self):
        if self.n < 1600:
            Source.draw(self)

    def dist(self):
        n = self.m.n_actions
        return {a: 1. / n for a in range(n)}

    def judge(self):
        if self.n:
            Source.judge(self)
        else:
            self.several = False


class RollStarts(RollOuts):
    """Where roll-outs start from: each draws from the belief anew."""

    def __init__(self, ctx):
        RollOuts.__init__(self, ctx)
        ch = ctx.ch
        n, n_a = ch.between(2, 4), ch.between(1, 2)

        def row():
            x = np.array([float(ch.pick([0, 1, 1, 3])) for _ in range(n)])
            return x / x.sum() if x.any() else np.ones(n) / n

        self.T = np.array([[row() for _ in range(n)] for _ in range(n_a)])
        self.s0 = row()
        m = self.ns.pomdp.POMDP(
            self.T, np.ones((n_a, n, 1)), np.ones((n_a, n, n, 1)), self.s0,
            .9)
        orig = m.sample_transition

        def sample_transition(a, s):
            self.calls.append((int(a), int(s)))
            return orig(a, s)

        m.sample_transition = sample_transition
        self.m = m
        self.horizon = ch.between(2, 4)
        self.rollouts = ch.pick([2, 2, 3])
        self.what = (n, n_a, self.horizon, self.rollouts)

    def sample(self):
        calls = RollOuts.sample(self)
        if not calls:
            return []
        per = self.horizon - 1
        first = self.calls[-per * self.rollouts - 1][0]
        return [(first,) + tuple(calls[i * per][1]
                                 for i in range(self.rollouts))]

    def dist(self):
        r = {}
        for a in range(self.T.shape[0]):
            b = self.s0.dot(self.T[a])
            for ss in itertools.product(range(len(b)), repeat=self.rollouts):
                r[(a,) + ss] = float(np.prod([b[s] for s in ss])) / \
                    self.T.shape[0]
        return r


MAKE = {'matrix': Matrix, 'matrix-start': lambda c: Matrix(c, True),
        'array-belief': ABelief, 'particle-belief': PBelief,
        'particle-start': PStart, 'particle-successor': PSuccessor,
        'supportive': Supportive, 'supportive-start': SupStart,
        'roll-outs': RollOuts, 'roll-out-starts': RollStarts,
        'successors': Successors}
