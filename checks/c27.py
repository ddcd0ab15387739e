"""C27: task trees survive export to and import from their description."""
import itertools
import json
import os
import shutil
import tempfile

from sim import fsio, htm, loader
from sim.core import SimCrash

ID = 'C27'
RUNS = {'quick': 25000, 'thorough': 400000}
TECHNIQUE = ('deterministic simulation of task descriptions exchanged through '
             'a storage that fails, and of a controller that follows the '
             'human through the task; oracle is an independent tree')
RULE = ('random task trees (nested combinations, unicode and repeated names, '
        'agents, highlights, branch probabilities), exported by the package '
        'or written by hand, storage fault at any byte of the writing or '
        'during the reading, random navigation queries and a walk along the '
        'human actions; non-trivial: a tree of four nodes was read')
COMPONENTS = {
    'real': ['task_models.task (combinations, HierarchicalTask)',
             'task_models.json_to_htm', 'task_models.action', 'json',
             'io text and buffer layers'],
    'stub': ['raw file layer under the scratch directory',
             'the controller asking queries']}
ASSUMPTIONS = ['numbers of nodes increase in the order of the description',
               'the root is not an answer to a search below the root']
PROBES = ('empty-node', 'exported', 'hand-written', 'read', 'read-failed',
          'crashed',
          'unicode', 'highlighted', 'human', 'robot', 'no-agent', 'gaps',
          'parent', 'no-parent', 'by-name', 'no-such-name', 'next-human',
          'no-next-human', 'probabilities', 'copied', 'expanded', 'leaf-root',
          'empty-task', 'read-again', 'read-copied', 'weights-set',
          'weights-refused')
FAULTS = tuple('disk-' + k for k in fsio.WRITE_KINDS + fsio.READ_KINDS)

KIND = {'seq': 'Sequential', 'alt': 'Alternative', 'par': 'Parallel',
        'leaf': None}
NAMES = ['Mount leg', 'gather parts', 'HOLD', 'é→∨', 'x', 'mount', '"q"', 'Z z',
         'null', '1']


def setup():
    loader.load()


class Node:
    """Independent tree: what the description says."""

    def __init__(self, ch, spec):
        kind, x = spec
        self.kind = KIND[kind]
        self.name = ch.pick(NAMES) + (' %d' % ch.draw(5) if ch.chance(.7)
                                      else '')
        self.high = ch.chance(.2)
        self.agent = ch.pick(['human', 'human', 'robot', None]) \
            if self.kind is None else None
        self.children = [] if self.kind is None else [
            Node(ch, c) for c in x]
        self.proba = None
        if self.kind == 'Alternative' and ch.chance(.5):
            w = [1 + ch.draw(5) for _ in self.children]
            self.proba = [v / float(sum(w)) for v in w]
        self.idx = self.parent = None

    def walk(self):
        yield self
        for c in self.children:
            for n in c.walk():
                yield n

    def number(self, ids, parent=None):
        self.idx, self.parent = next(ids), parent
        for c in self.children:
            c.number(ids, self.idx)

    def describe(self, ch):
        attr = [self.agent] if self.agent else []
        if self.high:
            attr.insert(ch.draw(len(attr) + 1), 'highlighted')
        d = {'name': self.name, 'id': self.idx, 'parent': self.parent,
             'combination': self.kind, 'attributes': attr}
        if self.kind is not None:
            d['children'] = [c.describe(ch) for c in self.children]
        return d


def with_empty(ch, spec):
    """The same tree with a sequence or parallel node of nothing in it."""
    kind, x = spec
    if kind == 'leaf':
        return ('seq', [spec, (ch.pick(['seq', 'par']), [])])
    x = list(x)
    if ch.chance(.5):
        i = ch.draw(len(x))
        x[i] = with_empty(ch, x[i])
    else:
        x.insert(ch.draw(len(x) + 1), (ch.pick(['seq', 'par']), []))
    return (kind, x)


def run(ctx):
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        scenario(ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def scenario(ctx, root):
    ch = ctx.ch
    ns = loader.load()
    task = ns.task
    if ch.chance(.03):
        ctx.probe('empty-task')
        t = task.HierarchicalTask()
        ctx.check(t.is_empty() and t.as_dictionary()['nodes'] is None,
                  'empty', 'an empty task is described as one with nodes')
        return
    spec, _ = htm.random_spec(ch, max_leaves=ch.pick([2, 5, 9]), max_depth=4,
                              max_words=10 ** 6, max_expanded=10 ** 6)
    if ch.chance(.1):
        ctx.probe('empty-node')
        spec = with_empty(ch, spec)
    tree = Node(ch, spec)
    n = len(list(tree.walk()))
    if n == 1:
        ctx.probe('leaf-root')
    for x in tree.walk():
        if x.high:
            ctx.probe('highlighted')
        if x.kind is None:
            ctx.probe(x.agent or 'no-agent')
        if x.proba:
            ctx.probe('probabilities')
        if any(ord(c) > 127 for c in x.name):
            ctx.probe('unicode')
    ctx.event('tree', json.dumps(tree.describe(ctx.ch)) if n < 30 else n)
    exported = ch.chance(.5)
    if exported:
        ctx.probe('exported')
        d = export(ctx, ns, tree)
        for x in tree.walk():
            x.agent = None      # the description does not name agents
    else:
        ctx.probe('hand-written')
        ids = itertools.count(ch.pick([0, 0, 1, 7]))
        if ch.chance(.3):
            ctx.probe('gaps')
            step = ch.between(2, 5)
            ids = itertools.count(ch.draw(4), step)
        tree.number(ids)
        d = {'name': 'x', 'nodes': tree.describe(ch)}
        if ch.chance(.2):
            d['nodes']['parent'] = 'null'
            tree.parent = 'null'
    path = os.path.join(root, 'task.json')
    with fsio.FaultFS(ctx, root) as fs:
        t = exchange(ctx, ns, fs, path, d)
        if t is None:
            return
        judge(ctx, ns, tree, t)
        queries(ctx, tree, t)
        if ch.chance(.2):
            ctx.probe('read-again')
            t2 = ns.json_to_htm.json_to_htm(path)
            judge(ctx, ns, tree, t2)
    if ch.chance(.3):
        ctx.probe('read-copied')
        for x in tree.walk():
            x.proba = None      # the description does not name them
        copied(ctx, tree, t.root)
    d2 = t.as_dictionary()
    check_description(ctx, tree, d2, 'read and ')
    ctx.sim_time += n
    ctx.nontrivial = n >= 4
    ctx.sample = {'nodes': n, 'exported': exported}


# Export -----------------------------------------------------------------------

def export(ctx, ns, tree):
    task, ch = ns.task, ctx.ch
    classes = {'Sequential': task.SequentialCombination,
               'Alternative': task.AlternativeCombination,
               'Parallel': task.ParallelCombination}

    def build(x):
        if x.kind is None:
            a = task.AbstractAction(x.name) if x.agent is None else \
                task.AbstractAction(x.name, agent=x.agent)
            return task.LeafCombination(a, highlighted=x.high)
        kw = {} if x.proba is None else {'probabilities': list(x.proba)}
        return classes[x.kind]([build(c) for c in x.children], name=x.name,
                               highlighted=x.high, **kw)

    real = build(tree)
    if ch.chance(.3):
        weights(ctx, ns, tree, real)
    if ch.chance(.4):
        copied(ctx, tree, real)
    t = task.HierarchicalTask(real)
    d = t.as_dictionary() if ch.chance(.5) else t.as_dictionary(name='é')
    check_description(ctx, tree, d, '')
    tree.number(itertools.count())
    again = t.as_dictionary()
    ctx.check(again['nodes'] == d['nodes'], 'description', 'a second '
              'description of the same task differs')
    return d


def check_description(ctx, tree, d, how):
    """Same structure, each number once, parents as nested."""
    ids = []

    def same(x, n, parent):
        ctx.check(n['name'] == x.name and n['combination'] == x.kind,
                  'description', lambda: '{}described: {} {} instead of {} {}'
                  .format(how, n['combination'], n['name'], x.kind, x.name))
        ctx.check(('highlighted' in n['attributes']) == x.high, 'description',
                  lambda: '{}described: {} is {}highlighted'.format(
                      how, x.name, 'not ' if x.high else ''))
        ctx.check(n['parent'] == parent, 'parents', lambda: '{}described: {} '
                  'has parent {} instead of {}'.format(
                      how, x.name, n['parent'], parent))
        ids.append(n['id'])
        below = n.get('children', [])
        ctx.check(len(below) == len(x.children), 'description', lambda:
                  '{}described: {} has {} children instead of {}'.format(
                      how, x.name, len(below), len(x.children)))
        for c, m in zip(x.children, below):
            same(c, m, n['id'])

    same(tree, d['nodes'], None)
    ctx.check(len(set(ids)) == len(ids), 'identifiers', lambda: '{}described '
              'with repeated numbers {}'.format(how, ids))


def copied(ctx, tree, real):
    """A copy is the same tree with other names, and shares nothing."""
    ch = ctx.ch
    ctx.probe('copied')
    fmt = ch.pick(['{}', '{} order-1', 'a {} b'])
    seen = set()

    def note(r):
        seen.add(id(r))
        if r.kind is None:
            seen.add(id(r.action))
        else:
            for c in r.children:
                note(c)

    def same(x, r, fmt):
        ctx.check(id(r) not in seen, 'shared', 'a copy shares nodes with the '
                  'original')
        ctx.check(r.kind == x.kind and r.name == fmt.format(x.name) and
                  r.highlighted == x.high, 'copy', lambda: 'the copy of {} is '
                  '{} {}{}'.format(x.name, r.kind, r.name,
                                   ' highlighted' * r.highlighted))
        if x.kind is None:
            ctx.check(id(r.action) not in seen, 'shared', 'a copy shares '
                      'actions with the original')
            if x.agent is not None:
                ctx.check(getattr(r.action, 'agent', '?') == x.agent, 'copy', 'the copy of an '
                          'action has another agent')
            return
        proba(ctx, x, r, 'copied ')
        ctx.check(len(r.children) == len(x.children), 'copy', 'a copy lost '
                  'children')
        for c, k in zip(x.children, r.children):
            same(c, k, fmt)

    note(real)
    same(tree, real.deep_copy(rename_format=fmt), fmt)
    if tree.kind == 'Parallel' and len(tree.children) <= 4:
        ctx.probe('expanded')
        alt = real.to_alternative()
        orders = [list(p) for p in
                  itertools.permutations(range(len(tree.children)))]
        ctx.check(alt.kind == 'Alternative' and alt.name == tree.name and
                  alt.highlighted == tree.high and
                  len(alt.children) == len(orders), 'expanded', 'the expanded '
                  'parallel task is another one')
        names = [s.name for s in alt.children]
        ctx.check(len(set(names)) == len(names), 'expanded', 'two orders of a '
                  'parallel task have the same name')
        todo = [[tree.children[i] for i in o] for o in orders]
        for i, s in enumerate(alt.children):
            ctx.check(s.kind == 'Sequential', 'expanded', 'an order of a '
                      'parallel task is not a sequence')
            f = '{} order-' + str(i)
            for k, (x, r) in enumerate(zip(todo[i], s.children)):
                same(x, r, f)
            ctx.check(len(s.children) == len(todo[i]), 'expanded', 'an order '
                      'of a parallel task lacks members')
    # the original is as before
    tree_same_names(ctx, tree, real)


def tree_same_names(ctx, x, r):
    ctx.check(r.name == x.name, 'copy', 'copying renamed the original')
    for c, k in zip(x.children, [] if r.kind is None else r.children):
        tree_same_names(ctx, c, k)


def proba(ctx, x, r, how):
    if x.kind != 'Alternative':
        return
    want = x.proba or [1. / len(x.children)] * len(x.children)
    got = list(r.proba)
    ctx.check(len(got) == len(want) and
              all(abs(a - b) < 1e-9 for a, b in zip(got, want)),
              'probabilities', lambda: '{}branches of {} have probabilities '
              '{} instead of {}'.format(how, x.name, got, want))


def weights(ctx, ns, tree, real):
    """The branches of the alternatives are given other probabilities, some of
    which are damaged."""
    ch = ctx.ch
    pairs = []

    def collect(x, r):
        if x.kind == 'Alternative':
            pairs.append((x, r))
        if x.kind is not None:
            for c, k in zip(x.children, r.children):
                collect(c, k)

    collect(tree, real)
    for x, r in pairs:
        for _ in range(ch.draw(3)):
            n = len(x.children)
            w = [ch.draw(5) for _ in range(n)]
            w[ch.draw(n)] += 1
            p = [v / float(sum(w)) for v in w]
            damage = ch.pick([None, None, 'short', 'long', 'negative', 'nan',
                              'scaled', 'zero', 'split'])
            i = ch.draw(n)
            if damage == 'short':
                p = p[:-1] if n > 1 else []
                if p and ch.chance(.5):
                    p = [v / sum(p) for v in p] if sum(p) else [1.] * len(p)
            elif damage == 'long':
                p = p + [ch.pick([0., .5])]
            elif damage == 'negative':
                if n == 1:
                    p = [-1.]
                else:
                    j = (i + 1) % n
                    p[j] += p[i] + .25
                    p[i] = -.25
            elif damage == 'nan':
                p[i] = float('nan')
            elif damage == 'scaled':
                k = ch.pick([.5, 1.5, .99])
                p = [v * k for v in p]
            elif damage == 'zero':
                p = [0.] * n
            elif damage == 'split':
                p[i] += ch.pick([1., .01])
            if ch.chance(.2):
                p, damage = None, None
            ctx.event('weights', p, damage)
            built = ch.chance(.3)
            try:
                if built:
                    k = ns.task.AlternativeCombination(
                        list(r.children), name=r.name,
                        probabilities=None if p is None else list(p))
                else:
                    r.proba = None if p is None else list(p)
            except Exception as e:
                ctx.check(damage is not None, 'probabilities', lambda: 'the '
                          'probabilities {} are refused: {!r}'.format(p, e))
                ctx.probe('weights-refused')
            else:
                ctx.check(damage is None, 'probabilities', lambda: 'the '
                          'probabilities {} ({}) are accepted for {} branches'
                          .format(p, damage, n))
                ctx.probe('weights-set')
                if built:
                    y = Node.__new__(Node)
                    y.kind, y.name, y.children, y.proba = (
                        x.kind, x.name, x.children, p)
                    proba(ctx, y, k, 'given ')
                else:
                    x.proba = p
            proba(ctx, x, r, 'held ')


# Storage ----------------------------------------------------------------------

def exchange(ctx, ns, fs, path, d):
    """The task read back, or None after a reported failure."""
    ch = ctx.ch
    text = json.dumps(d, ensure_ascii=ch.chance(.5),
                      indent=ch.pick([None, 2]))
    fault = ch.pick([None] * 3 + ['write', 'read'])
    complete = True
    if fault == 'write':
        fs.arm(ch.pick(fsio.WRITE_KINDS), ch.pick(
            [0, 1, ch.draw(len(text) + 1), ch.draw(len(text) + 1)]))
    try:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
    except SimCrash:
        ctx.probe('crashed')
        fs.reboot()
        complete = False
    except OSError:
        complete = False
    fs.disarm()
    if fault == 'read':
        fs.arm(ch.pick(fsio.READ_KINDS))
    try:
        t = ns.json_to_htm.json_to_htm(path)
    except Exception as e:
        ctx.probe('read-failed')
        ctx.event('read failed', type(e).__name__)
        ctx.check(not complete or fs.fired, 'unreadable', lambda: 'a complete '
                  'description cannot be read: {!r}'.format(e))
        if complete:
            # the fault has passed
            fs.disarm()
            return ns.json_to_htm.json_to_htm(path)
        return None
    finally:
        fs.disarm()
    ctx.probe('read')
    if not complete:
        with open(path, encoding='utf-8', errors='replace') as f:
            ctx.check(f.read() == text, 'incomplete', 'a task was read from '
                      'an incomplete description')
    return t


# What was read ----------------------------------------------------------------

def judge(ctx, ns, tree, t):
    task = ns.task
    classes = {'Sequential': task.SequentialCombination,
               'Alternative': task.AlternativeCombination,
               'Parallel': task.ParallelCombination,
               None: task.LeafCombination}

    def same(x, r):
        ctx.check(isinstance(r, classes[x.kind]) and r.kind == x.kind,
                  'structure', lambda: 'node {} read as {}'.format(
                      x.name, type(r).__name__))
        ctx.check(r.name == x.name, 'names', lambda: 'node {!r} read with the '
                  'name {!r}'.format(x.name, r.name))
        ctx.check(r.idx == x.idx and r.parent == x.parent, 'numbers', lambda:
                  'node {} read with number {} and parent {} instead of {} '
                  'and {}'.format(x.name, r.idx, r.parent, x.idx, x.parent))
        ctx.check(bool(r.highlighted) == x.high, 'highlights', lambda: 'node '
                  '{} read as {}highlighted'.format(
                      x.name, 'not ' if x.high else ''))
        if x.kind is None:
            if x.agent is not None:
                ctx.check(getattr(r.action, 'agent', '?') == x.agent, 'agents', lambda: '{} is '
                          'an action of {!r} instead of {!r}'.format(
                              x.name, getattr(r.action, 'agent', None),
                              x.agent))
            else:
                ctx.check(getattr(r.action, 'agent', None) not in ('human', 'robot',
                                                 'highlighted'), 'agents',
                          lambda: '{} is an action of {!r} though none is '
                          'named'.format(x.name, r.action.agent))
            return
        ctx.check(len(r.children) == len(x.children), 'structure', lambda:
                  'node {} read with {} children instead of {}'.format(
                      x.name, len(r.children), len(x.children)))
        for c, k in zip(x.children, r.children):
            same(c, k)

    ctx.check(isinstance(t, task.HierarchicalTask) and not t.is_empty(),
              'structure', 'no task was read')
    same(tree, t.root)


def queries(ctx, tree, t):
    ch = ctx.ch
    below = list(tree.walk())[1:]
    parent = {c.idx: x for x in tree.walk() for c in x.children}
    numbers = [x.idx for x in tree.walk()]

    def describe(r):
        return None if r is None else (r.name, r.idx)

    for _ in range(ch.between(1, 6)):
        i = ch.pick(numbers) if ch.chance(.8) else ch.draw(numbers[-1] + 9)
        r = t.find_parent_node(t.root, i)
        want = parent.get(i)
        ctx.probe('parent' if want is not None else 'no-parent')
        ctx.check(describe(r) == describe(want), 'parent', lambda: 'the parent '
                  'of {} is {} instead of {}'.format(i, describe(r),
                                                     describe(want)))
        q = ch.pick([x.name.lower() for x in tree.walk()] +
                    [s.lower() for s in NAMES] + ['2', 'no such', ' '])
        if ch.chance(.3) and len(q) > 1:
            q = q[ch.draw(len(q)):] or q
        r = t.find_node_by_name(t.root, q)
        want = next((x for x in below if q in x.name.lower()), None)
        ctx.probe('by-name' if want is not None else 'no-such-name')
        ctx.check(describe(r) == describe(want), 'by-name', lambda: 'searching '
                  '{!r} gives {} instead of {}'.format(q, describe(r),
                                                       describe(want)))
        i = ch.draw(numbers[-1] + 2) - 1
        next_human(ctx, tree, t, below, i)
    # a controller that follows the human
    at, seen = -1, []
    for _ in range(len(numbers) + 1):
        r = next_human(ctx, tree, t, below, at)
        if r is None:
            break
        seen.append(r.idx)
        at = r.idx
    want = [x.idx for x in below if x.kind is None and x.agent == 'human']
    ctx.check(seen == want, 'next-human', lambda: 'following the human visits '
              '{} instead of {}'.format(seen, want))


def next_human(ctx, tree, t, below, i):
    r = t.find_next_human_action(t.root, i)
    want = next((x for x in below if x.idx > i and x.kind is None and
                 x.agent == 'human'), None)
    ctx.probe('next-human' if want is not None else 'no-next-human')
    ctx.check((None if r is None else r.idx) ==
              (None if want is None else want.idx), 'next-human', lambda:
              'after {} the next action of the human is {} instead of {}'
              .format(i, r and r.idx, want and want.idx))
    return r
