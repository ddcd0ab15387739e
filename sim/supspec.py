"""What the supportive-robot model is allowed to do, stated independently of
its code: a relation between state, action, next state, observation, reward.
"""
import itertools

from . import htm, loader
from .core import HarnessError

TOL = 1e-6


class Spec:

    def __init__(self, model, spec, leaves, knobs, node_leaf=None):
        ns = loader.load()
        sup = ns.supportive
        self.CONSUMES, self.USES = sup.CONSUMES, sup.USES
        self.model, self.spec, self.leaves = model, spec, leaves
        self.k = dict(DEFAULTS)
        self.k.update(knobs)
        self.actions = list(model.actions)
        self.observations = list(model.observations)
        self.objects = list(model.objects)
        self.n_prefs = len(self.k['preferences'])
        names = list(model.htm_names)
        if len(names) < 3:
            raise HarnessError('task names {}'.format(names))
        self.node_leaf = [htm.leaf_id(n) for n in names[:-2]] \
            if node_leaf is None else node_leaf
        self.clean, self.final = len(names) - 2, len(names) - 1
        self.words = htm.words(spec)
        self.prefixes = htm.prefixes(self.words)
        self.firsts = {w[0] for w in self.words}
        self.pairs = {(a, b) for w in self.words
                      for a, b in zip(w, w[1:] + (None,))}
        self.longest = max(len(w) for w in self.words)
        self._out = {}
        self._seen = {}

    # state layout: objects (low bits), holding, preferences, task position

    def decode(self, s):
        n = len(self.objects)
        objs = tuple((s >> i) & 1 for i in range(n))
        body = (s >> n) & 1
        prefs = tuple((s >> (n + 1 + i)) & 1 for i in range(self.n_prefs))
        return s >> (n + 1 + self.n_prefs), prefs, body, objs

    def encode(self, htm_, prefs, body, objs):
        bits = list(objs) + [body] + list(prefs)
        return (htm_ << len(bits)) + sum(b << i for i, b in enumerate(bits))

    @property
    def n_states(self):
        return (self.final + 1) << (len(self.objects) + 1 + self.n_prefs)

    def mids(self, prefs, objs, random):
        """States after the changes by the human, fewest changes first."""
        if not random:
            return [(prefs, objs, ())]
        out = []
        n, m = len(objs), len(prefs)
        for flips in itertools.product((0, 1), repeat=n + m):
            ok = True
            for i, f in enumerate(flips):
                p = self.k['p_changed_by_human' if i < n
                           else 'p_change_preference']
                if f and p <= 0 or not f and p >= 1:
                    ok = False
                    break
            if ok:
                out.append((tuple(p ^ f for p, f in zip(prefs, flips[n:])),
                            tuple(o ^ f for o, f in zip(objs, flips[:n])),
                            flips))
        out.sort(key=lambda x: sum(x[2]))
        return out

    def outcomes(self, h, name, prefs, objs, random):
        """[(task positions, object value sets, observation, reward, label)]
        when acting in a state (after the changes by the human)."""
        k = self.k
        same = [{o} for o in objs]
        if name in ('wait', 'hold H', 'hold V'):
            cost = 0. if name == 'wait' else -k['cost_hold']
            if h == self.final:
                return [({h}, same, 'none', cost, 'at the end')]
            if h == self.clean:
                if name == 'wait':
                    return [({self.final}, same, 'none', k['r_final'] -
                             k['cost_get'] * sum(objs), 'finished')]
                return [({h}, same, 'fail', cost, 'hold while cleaning')]
            leaf = self.leaves[self.node_leaf[h]]
            ok = self.after(h)
            new = list(same)
            gain = cost + k['r_subtask']
            if k['reward_independent_preference'] and not prefs[0]:
                gain += k['r_preference'] - k['cost_hold']
            for c, o in leaf.conditions:
                i = self.objects.index(o)
                if not objs[i]:
                    gain -= k['cost_get']
                if c == self.CONSUMES:
                    new[i] = {0}
                elif c == self.USES:
                    new[i] = {1}
                else:
                    new[i] = {0: {1}, 1: {0}}.get(k['p_consume_all'], {0, 1})
            if name == 'wait':
                return [(ok, new, 'none', gain, 'subtask')]
            if prefs[0] and leaf.hold == name[-1].lower():
                return [(ok, new, 'none', gain + k['r_preference'],
                         'hold accepted')]
            out = [({h}, same, 'fail', cost, 'hold refused')]
            if random:
                out.append((ok, new, 'none', gain, 'unneeded-hold-accepted'))
            return out
        if name == 'ask hold':
            out = [({h}, same, 'yes' if prefs[0] else 'no',
                    -k['cost_intrinsic'], 'answer')]
            if random:
                out.append(({h}, same, 'none', -k['cost_intrinsic'],
                            'no-answer'))
            return out
        verb, obj = name.split(' ', 1)
        i = self.objects.index(obj)
        want = {'bring': 1, 'clear': 0}[verb]
        cost = -k['cost_intrinsic']
        if objs[i] == want:
            return [({h}, same, 'not-found', cost, 'not found')]
        out = []
        if not random or k['p_fail'] < 1:
            new = list(same)
            new[i] = {want}
            out.append(({h}, new, 'none', cost, verb))
        if random and k['p_fail'] > 0:
            out.append(({h}, same, 'fail', cost, 'action-failed'))
        return out

    def after(self, h):
        """Task positions that may follow a subtask."""
        r = self._out.get(h)
        if r is None:
            leaf = self.node_leaf[h]
            r = {i for i, l in enumerate(self.node_leaf)
                 if (leaf, l) in self.pairs}
            if (leaf, None) in self.pairs:
                r.add(self.clean)
            self._out[h] = r
        return r

    def explain(self, s, a, s2, o, r=None, random=True):
        if r is not None:
            return self._explain(s, a, s2, o, r, random)
        k = (s, a, s2, o, bool(random))
        if k not in self._seen:
            self._seen[k] = self._explain(s, a, s2, o, None, random)
        return self._seen[k]

    def _explain(self, s, a, s2, o, r, random):
        """(flips, label) of an allowed event, or None."""
        h, prefs, body, objs = self.decode(s)
        h2, prefs2, body2, objs2 = self.decode(s2)
        if body2 != body:
            return None
        name, obs = self.actions[a], self.observations[o]
        for p, ob, flips in self.mids(prefs, objs, random):
            if p != prefs2:
                continue
            for hs, new, o_, r_, label in self.outcomes(h, name, p, ob,
                                                        random):
                if obs == o_ and h2 in hs and all(
                        x in y for x, y in zip(objs2, new)) and (
                            r is None or abs(r - r_) < TOL):
                    return flips, label
        return None

    def why(self, s, a, random=True):
        """For messages: what would be allowed, without changes."""
        h, prefs, body, objs = self.decode(s)
        return [(sorted(hs), [sorted(x) for x in new], o, r, label)
                for hs, new, o, r, label in self.outcomes(
                    h, self.actions[a], prefs, objs, random)]

    def show(self, s):
        h, prefs, body, objs = self.decode(s)
        names = list(self.model.htm_names)
        return '[{} prefs={} body={} {}]'.format(
            names[h] if h < len(names) else h, prefs, body,
            dict(zip(self.objects, objs)))

    def count(self, ctx, ex):
        """Faults of the environment that an explained event shows."""
        flips, label = ex
        n = len(self.objects)
        if any(flips[:n]):
            ctx.fault('object-changed-by-human')
        if any(flips[n:]):
            ctx.fault('preference-changed')
        if label in ('action-failed', 'no-answer', 'unneeded-hold-accepted'):
            ctx.fault(label)


DEFAULTS = {
    'p_fail': .01, 'p_consume_all': .5, 'p_changed_by_human': .01,
    'p_change_preference': .01, 'r_subtask': 10., 'r_final': 100.,
    'r_preference': 10., 'reward_independent_preference': False,
    'cost_get': 15., 'cost_intrinsic': 1., 'cost_hold': 2.,
    'preferences': ['hold'], 'p_preferences': [.3]}

STOCK = {
    'AssembleLeg': ('h', [('U', 'joints'), ('C', 'leg'),
                          ('U', 'screwdriver'), ('U', 'screws')]),
    'AssembleFoot': ('h', [('U', 'joints'), ('C', 'leg'),
                           ('U', 'screwdriver'), ('U', 'screws')]),
    'AssembleTopJoint': ('h', [('U', 'joints'), ('U', 'screwdriver'),
                               ('U', 'screws')]),
    'AssembleLegToTop': ('v', [('U', 'screwdriver'), ('U', 'screws')]),
    'AssembleLegToTop+top': ('v', [('C', 'top'), ('U', 'screwdriver'),
                                   ('U', 'screws')])}


def random_knobs(ch):
    k = {
        'p_fail': ch.pick([.01, 0., .3, .9, 1.]),
        'p_consume_all': ch.pick([.5, 0., 1.]),
        'p_changed_by_human': ch.pick([.01, 0., .2, 1.]),
        'p_change_preference': ch.pick([.01, 0., .3, 1.]),
        'p_preferences': [ch.pick([.3, 0., 1.])],
        'reward_independent_preference': ch.chance(.3)}
    if ch.chance(.2):
        # as used by the experiments
        k.update({'r_subtask': ch.pick([0., 3.25]), 'r_preference': 20.,
                  'cost_hold': 3., 'cost_get': 20.})
    if ch.chance(.1):
        k.update({'r_final': 77., 'cost_intrinsic': .5})
    if ch.chance(.2):
        k['preferences'] = ['hold', 'other']
        k['p_preferences'].append(ch.pick([.3, 0., 1.]))
    return k


def stock_task(ctx, **kw):
    """A task made of the package's own subtasks."""
    ch = ctx.ch
    ns = loader.load()
    sup = ns.supportive
    spec, n = htm.random_spec(ch, **kw)
    kinds = [ch.pick(sorted(STOCK)) for _ in range(n)]
    code = {'U': sup.USES, 'C': sup.CONSUMES}
    leaves = [htm.LeafSpec(STOCK[k][0], [(code[c], o) for c, o in STOCK[k][1]])
              for k in kinds]

    def make(i):
        k = kinds[i]
        if k.endswith('+top'):
            return sup.AssembleLegToTop('L%dx' % i, bring_top=True)
        return getattr(sup, k)('L%dx' % i)

    ctx.event('stock task', htm.show(spec), kinds)
    return htm.build(ns, spec, make), spec, leaves


class Calls:
    """What the model was asked and answered."""

    def __init__(self):
        self.judge = None       # called for each transition
        self.depth = 0          # inside a planner
        self.n = 0
        self.real = []
        self.stop_after = None  # real transitions before an injected error


def random_model(ctx, max_leaves=5):
    """(instrumented real model, its specification, calls)."""
    ch = ctx.ch
    ns = loader.load()
    if ch.chance(.2):
        root, spec, leaves = stock_task(ctx, max_leaves=3, max_expanded=12)
    else:
        root, spec, leaves = htm.supportive_task(
            ctx, max_leaves=max_leaves, max_expanded=16)
    calls = Calls()
    knobs = random_knobs(ch)
    ctx.event('knobs', sorted(knobs.items()))

    class Model(ns.supportive.SupportivePOMDP):

        def sample_transition(self, a, s, *args, **kwargs):
            if calls.stop_after is not None and not calls.depth:
                calls.stop_after -= 1
                if calls.stop_after < 0:
                    raise Enough()
            before = self.n_simulator_calls
            out = super(Model, self).sample_transition(a, s, *args, **kwargs)
            calls.n += 1
            if calls.judge is not None:
                calls.judge(int(a), int(s), out, args, kwargs,
                            self.n_simulator_calls - before)
            if not calls.depth:
                calls.real.append((int(a), int(s), int(out[0]), int(out[1]),
                                   float(out[2])))
            return out

    for k, v in knobs.items():
        setattr(Model, k, v)
    model = Model(root, discount=ch.pick([1., .9]))
    return model, Spec(model, spec, leaves, knobs), calls, root


class Enough(Exception):
    """Ends an execution that goes on for long."""


def random_action(ch, sp, s):
    """Biased towards progress, then anything."""
    h, prefs, body, objs = sp.decode(s)
    r = ch.draw(10)
    if r < 3:
        return 0
    if r < 5 and h < sp.clean:
        hold = sp.leaves[sp.node_leaf[h]].hold
        return {'h': 1, 'v': 2}.get(hold, 1)
    return ch.draw(len(sp.actions))


def planner(ctx, model, calls):
    """A real tree-search planner for the model, its own calls told apart."""
    ch = ctx.ch
    ns = loader.load()
    pol = ns.pomcp.POMCPPolicyRunner(
        model, iterations=ch.between(2, 12),
        horizon=ns.supportive.NHTMHorizon.generator(model,
                                                    n=ch.between(1, 3)),
        rollout_it=1, exploration=ch.pick([50., 1.]), belief='particle',
        belief_params={'n_particles': ch.between(5, 15)},
        logger=lambda *a, **k: None)
    for name in ('get_action', 'step', 'reset'):
        setattr(pol, name, _inside(calls, getattr(pol, name)))
    return pol


def _inside(calls, f):
    def g(*args, **kwargs):
        calls.depth += 1
        try:
            return f(*args, **kwargs)
        finally:
            calls.depth -= 1
    return g
