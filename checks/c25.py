"""C25: hierarchy extraction finds exactly the maximal chains and cliques."""
import itertools

import numpy as np

from sim import htm, loader

ID = 'C25'
RUNS = {'quick': 24000, 'thorough': 300000}
TECHNIQUE = ('deterministic simulation of the iteration order of the sets a '
             'graph is held in (seeded hashes, with collisions) and of the '
             'arrival of demonstrations; oracle is an independent statement '
             'of maximal chains and cliques')
RULE = ('conjugate graphs of random demonstrated tasks (orderings of a random '
        'hierarchical task, vector states with pre- and post-conditions, '
        'repeated actions) or built from random connections; chains and '
        'cliques merged one after the other in random order; two replicas '
        'with different iteration orders; non-trivial: a graph of five nodes '
        'with a chain or a clique')
COMPONENTS = {
    'real': ['task_models.task (graphs, extraction, meta-actions, '
             'combinations)', 'task_models.action', 'task_models.state'],
    'stub': ['hash values of actions (seeded)', 'demonstrators']}
ASSUMPTIONS = ['every node can be reached from the initial action, as in the '
               'conjugate of a set of demonstrations',
               'nothing leads back to the initial action']
PROBES = ('task', 'vector', 'edges', 'chain', 'clique', 'big-clique', 'merged',
          'merged-twice', 'cycle', 'repeated-action', 'several-labels',
          'joined-chains', 'combination', 'collisions', 'all-merged',
          'replica', 'not-an-item', 'other-graph')
FAULTS = ('iteration-order', 'reordered', 'duplicated')


def setup():
    loader.load()


class Hashes:
    """Decides the hash of every action, hence how sets are iterated."""

    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.known = {}
        self.span = self.ch.pick([1 << 30, 1 << 30, 64, 7, 2])
        if self.span <= 7:
            ctx.probe('collisions')
        ctx.fault('iteration-order')

    def get(self, key):
        h = self.known.get(key)
        if h is None:
            h = self.known[key] = self.ch.draw(self.span)
        return h


def classes(ns, hashes):
    task, action = ns.task, ns.action

    class Step(task.AbstractAction):

        def __hash__(self):
            return hashes.get(self.name)

        def __eq__(self, other):
            return task.AbstractAction.__eq__(self, other)

    class Conditioned(action.PrePostConditionAction):

        def __hash__(self):
            return hashes.get((tuple(self.pre.mask.tolist()),
                               tuple(self.pre.value.tolist()),
                               tuple(self.post.value.tolist())))

        def __eq__(self, other):
            return action.PrePostConditionAction.__eq__(self, other)

    return Step, Conditioned


# Graphs, as canonical edges (node, label, node) first -------------------------

def task_demos(ctx):
    """Histories of a task, as in the sample of hierarchy extraction."""
    ch = ctx.ch
    ctx.probe('task')
    spec, n = htm.random_spec(ch, max_leaves=6, max_words=60,
                              max_expanded=60)
    ctx.event('task', htm.show(spec))
    ws = sorted(htm.words(spec))
    k = len(ws) if ch.chance(.5) else ch.between(1, min(6, len(ws)))
    ws = ch.shuffled(ws)[:k]
    if ch.chance(.3):
        # the same step again
        ctx.probe('repeated-action')
        ws = [sum([(x,) * (2 if ch.chance(.3) else 1) for x in w], ())
              for w in ws]
    # a state is the history, or what was done whatever the order
    bag = ch.chance(.5)
    demos = []
    for w in ws:
        s = ()
        p = [s]
        for x in w:
            s = tuple(sorted(s + (x,))) if bag else s + (x,)
            p += [x, s]
        demos.append(p)
    return demos


def vector_demos(ctx):
    ch = ctx.ch
    ctx.probe('vector')
    dim = ch.between(1, 3)
    demos = []
    for _ in range(ch.between(1, 5)):
        s = (0,) * dim if ch.chance(.6) else tuple(
            ch.draw(2) for _ in range(dim))
        p = [s]
        for _ in range(ch.between(1, 6)):
            i = ch.draw(dim)
            s2 = list(s)
            s2[i] = ch.draw(3)
            p += [(i, s[i], s2[i]), tuple(s2)]
            if p[-3] == p[-1]:
                ctx.probe('repeated-action')
            s = tuple(s2)
        demos.append(p)
    return demos


def random_edges(ctx):
    """Connections between 'initial', 'terminal' and steps."""
    ch = ctx.ch
    ctx.probe('edges')
    n = ch.between(2, 9)
    nodes = ['initial'] + list(range(n)) + ['terminal']
    out = set()
    seen = ['initial']
    for x in nodes[1:]:
        if x == 'terminal' and ch.chance(.2):
            continue
        # reachable
        u = seen[-1] if ch.chance(.7) else ch.pick(seen)
        out.add((u, ch.draw(2), x))
        if x != 'terminal':
            seen.append(x)
    for _ in range(ch.pick([0, 0, 1, 2, 4, 12])):
        u, v = ch.pick(seen), ch.pick(seen[1:] + ['terminal'])
        out.add((u, ch.draw(2), v))
        if ch.chance(.5) and 'terminal' not in (u, v) and u != 'initial':
            out.add((v, ch.draw(2), u))
        if u == v:
            ctx.probe('repeated-action')
    return out


# Independent statement --------------------------------------------------------

def chains(edges, start):
    succ, pred = {}, {}
    nodes = set()
    for u, _, v in edges:
        succ.setdefault(u, set()).add(v)
        pred.setdefault(v, set()).add(u)
        nodes |= {u, v}

    def one(x):
        return len(succ.get(x, ())) == 1

    def joins(u, v):
        """u is only followed by v, which only follows u"""
        return one(u) and v in succ[u] and len(pred[v]) == 1

    out = []
    for x in nodes:
        if any(joins(u, x) for u in pred.get(x, ())):
            continue
        c = [x]
        while one(c[-1]):
            (y,) = succ[c[-1]]
            if not joins(c[-1], y) or y in c:
                break
            c.append(y)
        if len(c) > 1:
            out.append(tuple(c))
    return out


def cliques(edges):
    pairs = {(u, v) for u, _, v in edges if u != v}
    pairs = {(u, v) for u, v in pairs if (v, u) in pairs}
    nodes = sorted({u for u, _ in pairs}, key=repr)
    near = {u: {v for x, v in pairs if x == u} for u in nodes}
    found = []

    def grow(c, cand):
        """All cliques, by increasing position of their nodes."""
        found.append(frozenset(c))
        for i, u in enumerate(cand):
            grow(c + [u], [v for v in cand[i + 1:] if v in near[u]])

    grow([], nodes)
    allc = set(found)
    return [c for c in allc if len(c) > 1 and not any(
        c | {u} in allc for u in nodes if u not in c)]


# Real graphs ------------------------------------------------------------------

class Graph:
    """A real conjugate graph with its reading in canonical form."""

    def __init__(self, ctx, ns):
        self.ctx, self.ch, self.ns = ctx, ctx.ch, ns
        self.Step, self.Conditioned = classes(ns, Hashes(ctx))
        self.keys = []        # (real action, canonical)

    def node(self, key):
        A = self.ns.action
        if key == 'initial':
            return self.cg.initial
        if key == 'terminal':
            return self.cg.terminal
        if isinstance(key, tuple):
            i, before, after = key
            m = np.zeros(3)
            m[i] = 1
            return self.Conditioned(A.Condition(m, m * before),
                                    A.Condition(m, m * after),
                                    name='{} from {} to {}'.format(*key))
        return self.Step('step %d' % key)

    def read(self, node):
        """Canonical form of a node of the graph."""
        task = self.ns.task
        if isinstance(node, task.MetaAction):
            x = [self.read(n) for n in node.actions]
            return (node.kind, tuple(x) if node.kind == 'sequence'
                    else frozenset(x))
        if isinstance(node, self.Conditioned):
            i = int(np.nonzero(node.pre.mask)[0][0])
            return (i, int(node.pre.value[i]), int(node.post.value[i]))
        if isinstance(node, self.Step):
            return int(node.name.split()[1])
        return node.name

    def from_demos(self, demos):
        ctx, ch = self.ctx, self.ch
        tg = self.ns.task.TaskGraph()
        order = ch.shuffled(list(range(len(demos))))
        if order != sorted(order):
            ctx.fault('reordered')
        if ch.chance(.2):
            order.append(ch.pick(order))
            ctx.fault('duplicated')
        state = self.ns.state.NDimensionalState
        for i in order:
            vector = demos[i] and isinstance(demos[i][1], tuple)
            self.cg = None
            p = []
            for j, x in enumerate(demos[i]):
                if j % 2:
                    p.append(self.node(x))
                elif vector:
                    p.append(state(np.array(list(x) + [0] * (3 - len(x)),
                                            float)))
                else:
                    p.append(state(np.array(x, float)))
            tg.add_path(p)
        self.cg = tg.conjugate()

    def from_edges(self, edges):
        self.cg = self.ns.task.ConjugateTaskGraph()
        for u, l, v in self.ch.shuffled(sorted(edges, key=repr)):
            self.cg.add_transition(self.node(u), 'state %d' % l, self.node(v))

    def edges(self):
        out = []
        for u, l, v in self.cg.all_transitions():
            if not isinstance(l, str):
                l = tuple(l.get_features().tolist())
            out.append((self.read(u), l, self.read(v)))
        return out

    # Judged

    def chains(self, edges):
        ctx = self.ctx
        limit = len({x for u, _, v in edges for x in (u, v)}) + 2
        real = list(itertools.islice(self.cg.get_max_chains(), limit))
        got = [tuple(self.read(n) for n in c) for c in real]
        want = chains(edges, 'initial')
        ctx.check(len(got) == len(set(got)) or None, 'chain-twice', lambda:
                  'the same chain is found more than once: {} in {}'.format(
                      got, show(edges)))
        ctx.check(set(got) == set(want), 'chains', lambda: 'found the chains '
                  '{} instead of {} in {}'.format(
                      sorted(map(repr, got)), sorted(map(repr, want)),
                      show(edges)))
        for c in real:
            ctx.check(isinstance(c, list), 'form', 'a chain is not a list')
        ends = {}
        succ = {}
        for u, _, v in edges:
            succ.setdefault(u, set()).add(v)
        for c in got:
            for y in succ.get(c[-1], ()):
                ends[y] = ends.get(y, 0) + 1
        if any(n > 1 for n in ends.values()):
            ctx.probe('joined-chains')
        if got:
            ctx.probe('chain', len(got))
        return real

    def cliques(self, edges):
        ctx = self.ctx
        limit = 3 ** 5
        real = list(itertools.islice(self.cg.get_max_cliques(), limit))
        got = [frozenset(self.read(n) for n in c) for c in real]
        want = cliques(edges)
        ctx.check(len(got) == len(set(got)), 'clique-twice', lambda: 'the '
                  'same clique is found more than once: {} in {}'.format(
                      got, show(edges)))
        ctx.check(set(got) == set(want), 'cliques', lambda: 'found the '
                  'cliques {} instead of {} in {}'.format(
                      got, want, show(edges)))
        if got:
            ctx.probe('clique', len(got))
        if any(len(c) >= 3 for c in got):
            ctx.probe('big-clique')
        return real


def show(edges):
    return ', '.join('{}>{}'.format(u, v) for u, _, v in
                     sorted(edges, key=repr))


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    kind = ch.pick(['task', 'vector', 'edges', 'edges'])
    g = Graph(ctx, ns)
    if kind == 'edges':
        source = random_edges(ctx)
        g.from_edges(source)
        ctx.event('edges', show(source))
    else:
        source = task_demos(ctx) if kind == 'task' else vector_demos(ctx)
        ctx.event('demonstrations', source)
        try:
            g.from_demos(source)
        except ValueError:
            ctx.event('ambiguous')
            return
    edges = g.edges()
    ctx.check(len(edges) == len(set(edges)), 'twice', 'the same transition is '
              'kept twice')
    pairs = {}
    for u, l, v in edges:
        pairs.setdefault((u, v), set()).add(l)
    if any(len(x) > 1 for x in pairs.values()):
        ctx.probe('several-labels')
    nodes = {x for u, _, v in edges for x in (u, v)}
    real = g.chains(edges), g.cliques(edges)
    r = None
    if ch.chance(.5):
        ctx.probe('replica')
        r = Graph(ctx, ns)
        if kind == 'edges':
            r.from_edges(source)
        else:
            r.from_demos(source)
        e2 = r.edges()
        ctx.check(set(e2) == set(edges), 'replica', 'two graphs of the same '
                  'demonstrations differ')
        r.chains(e2)
        r.cliques(e2)
    ctx.nontrivial = len(nodes) >= 5 and bool(real[0] or real[1])
    if cyclic(edges):
        ctx.probe('cycle')
    merged = merge(ctx, ns, g)
    if merged and ch.chance(.4):
        # merging in one graph is no matter of another one
        ctx.probe('other-graph')
        if r is None or ch.chance(.5):
            r = Graph(ctx, ns)
            if kind == 'edges':
                r.from_edges(source)
            else:
                r.from_demos(source)
        e2 = r.edges()
        ctx.check(set(e2) == set(edges), 'other-graph', 'a graph changed '
                  'when another one was merged')
        r.chains(e2)
        r.cliques(e2)
    ctx.sim_time += len(edges)
    ctx.sample = {'nodes': len(nodes), 'edges': len(edges), 'kind': kind,
                  'merged': merged}


def cyclic(edges):
    succ = {}
    for u, _, v in edges:
        succ.setdefault(u, set()).add(v)
    live = set(succ)
    while True:
        dead = {u for u in live if not succ[u] & live}
        if not dead:
            return bool(live)
        live -= dead


def merge(ctx, ns, g):
    """Merges chains and cliques one by one, as the extraction does."""
    ch, cg = ctx.ch, g.cg
    task = ns.task
    merged = 0
    start, end = 'initial', 'terminal'
    while merged < 12:
        edges = g.edges()
        found = [('sequence', c) for c in g.chains(edges)] + \
                [('parallel', c) for c in g.cliques(edges)]
        found.sort(key=lambda x: repr((x[0], sorted(
            [repr(g.read(n)) for n in x[1]]))))
        if not found or (not merged and ch.chance(.1)):
            break
        kind, group = ch.pick(found)
        keys = [g.read(n) for n in group]
        if ch.chance(.1):
            # any set of nodes can be merged
            ctx.probe('not-an-item')
            nodes = sorted({x for u, _, v in cg.all_transitions()
                            for x in (u, v)}, key=lambda n: repr(g.read(n)))
            nodes = [n for n in nodes if g.read(n) not in (start,)]
            kind, group = 'alternative', ch.subset(nodes, .4)
            keys = [g.read(n) for n in group]
            if not group:
                continue
        meta = task.MetaAction(kind, group)
        ctx.event('merge', kind, sorted(map(repr, keys)))
        me = g.read(meta)
        wrap = ch.pick([lambda x: x, list, tuple, set]) \
            if kind != 'sequence' else ch.pick([lambda x: x, list, tuple])
        try:
            cg.compact(wrap(group), meta)
        except Exception as e:
            ctx.violate('merge', 'merging {} raised {!r}'.format(keys, e))
        merged += 1
        inside = set(keys)
        want = set()
        for u, l, v in edges:
            a, b = u in inside, v in inside
            if a and b:
                continue
            if a or b:
                want.add((me if a else u, '', me if b else v))
            else:
                want.add((u, l, v))
        got = g.edges()
        ctx.check(len(got) == len(set(got)), 'twice', 'a transition is kept '
                  'twice after merging')
        ctx.check(set(got) == want, 'merge', lambda: 'merging {} leaves too '
                  'much {} and lacks {}'.format(
                      keys, sorted(map(repr, set(got) - want)),
                      sorted(map(repr, want - set(got)))))
        if start in inside:
            start = me
        if end in inside:
            end = me
        ctx.check(g.read(cg.initial) == start and g.read(cg.terminal) == end,
                  'ends', lambda: 'after merging {} the graph starts with {} '
                  'and ends with {}'.format(keys, g.read(cg.initial),
                                            g.read(cg.terminal)))
        same = task.MetaAction(kind, copy_of(ch, kind, group))
        ctx.check(same == meta and meta == same and hash(same) == hash(meta),
                  'equal', lambda: 'two meta-actions for {} are not the same '
                  'node'.format(keys))
        convert(ctx, ns, g, meta)
        ctx.probe('merged')
        if merged > 1:
            ctx.probe('merged-twice')
        if kind == 'alternative' and start_unreached(got, start):
            break
    if not g.edges():
        ctx.probe('all-merged')
    return merged


def copy_of(ch, kind, group):
    """The same group, put together in another order where it has none."""
    l = list(group)
    if kind != 'parallel':
        return l
    s = set()
    for x in ch.shuffled(l):
        s.add(x)
    return s


def start_unreached(edges, start):
    """Whether the assumptions no longer hold."""
    if any(v == start for _, _, v in edges):
        return True
    seen, todo = {start}, [start]
    while todo:
        u = todo.pop()
        for x, _, v in edges:
            if x == u and v not in seen:
                seen.add(v)
                todo.append(v)
    return not {x for u, _, v in edges for x in (u, v)} <= seen


KINDS = {'sequence': 'Sequential', 'parallel': 'Parallel',
         'alternative': 'Alternative'}


def convert(ctx, ns, g, meta):
    task = ns.task

    def read(c):
        if c.kind is None:
            return g.read(c.action)
        x = [read(k) for k in c.children]
        return (c.kind, tuple(x) if c.kind == 'Sequential'
                else frozenset(x))

    def want(k):
        if isinstance(k, tuple) and k and k[0] in KINDS:
            x = [want(c) for c in k[1]]
            if k[0] == 'alternative':
                x = frozenset(x)
            return (KINDS[k[0]], type(k[1])(x) if k[0] != 'alternative'
                    else x)
        return k

    try:
        c = meta.to_combination()
    except Exception as e:
        ctx.violate('combination', 'the task of {} cannot be built: {!r}'
                    .format(meta, e))
    ctx.probe('combination')
    ctx.check(isinstance(c, task.Combination) and
              read(c) == want(g.read(meta)), 'combination', lambda: 'the task '
              'built for {} is {}'.format(g.read(meta), read(c)))
