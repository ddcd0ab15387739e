"""C34: a task graph is exactly the transitions it was given."""
import copy
import pickle

import numpy as np

from sim import loader

ID = 'C34'
RUNS = {'quick': 12000, 'thorough': 200000}
TECHNIQUE = ('deterministic simulation of several holders that build, prune, '
             'merge, copy and compare graphs in interleaved programs with '
             'refused operations; oracle is one plain set per graph')
RULE = ('up to four graphs of three kinds, programs of additions, removals, '
        'paths (valid, empty, broken), mergings of nodes, copies, also to '
        'other processes, replays of one program in another order with '
        'duplicates; every query and every pairwise comparison is judged '
        'after every operation; non-trivial: ten operations on two graphs')
COMPONENTS = {'real': ['task_models.task (graphs)', 'task_models.action',
                       'pickle', 'copy'],
              'stub': ['the holders of the graphs']}
ASSUMPTIONS = ['graphs of the same kind are compared',
               'nodes and labels are hashable']
PROBES = ('added', 'added-again', 'removed', 'emptied-source', 'path',
          'empty-path', 'merged', 'merged-to-member', 'copied', 'pickled',
          'equal', 'different', 'same-by-another-way', 'deterministic',
          'not-deterministic', 'has-path', 'no-path', 'description',
          'self-loop', 'two-labels')
FAULTS = ('removal-of-absent', 'broken-path', 'reordered', 'duplicated')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    world = World(ctx, ns)
    n = ch.pick([5, 15, 30])
    for _ in range(n):
        world.operation()
    ctx.sim_time += n
    ctx.nontrivial = n >= 10 and sum(h.n > 1 for h in world.holders) > 1
    ctx.sample = {'graphs': [h.kind for h in world.holders],
                  'transitions': [len(h.ref) for h in world.holders]}


def make_state(ns, v):
    return ns.state.NDimensionalState(np.array(v))


class World:

    def __init__(self, ctx, ns):
        self.ctx, self.ch, self.ns = ctx, ctx.ch, ns
        self.n_nodes = self.ch.between(1, 5)
        self.n_labels = self.ch.between(1, 3)
        # states apply to the actions that count up
        self.what = self.ch.pick(['str', 'action', 'state'])
        self.holders = []
        for _ in range(self.ch.between(2, 4)):
            self.holders.append(Holder(self))

    def node(self, i):
        """A new object for node i."""
        if i == 'm':
            return self.ns.task.AbstractAction('merged')
        if self.what == 'str':
            return 'n%d' % i
        if self.what == 'action':
            return self.ns.task.AbstractAction('n%d' % i)
        return make_state(self.ns, [i, 1])

    def label(self, i):
        if i == '':
            return ''
        if self.what == 'state':
            return self.ns.task.AbstractAction('l%d' % i)
        return 'l%d' % i

    def back(self, x, label=False):
        """Plain name of a node or label, or None."""
        ids = ([''] if label else ['m']) + list(range(
            self.n_labels if label else self.n_nodes))
        f = self.label if label else self.node
        got = [i for i in ids if f(i) == x and isinstance(x, type(f(i)))]
        return got[0] if len(got) == 1 else None

    def operation(self):
        ch, ctx = self.ch, self.ctx
        h = ch.pick(self.holders)
        what = ch.weighted([(8, 'add'), (4, 'remove'), (2, 'path'),
                            (1, 'merge'), (1, 'copy'), (1, 'replay')])
        if what in ('copy', 'replay') and len(self.holders) > 6:
            what = 'add'
        ctx.event(self.holders.index(h), h.kind, what)
        h.n += 1
        if what == 'copy':
            other = h.copied()
            if ch.chance(.5):
                self.holders.append(other)
        elif what == 'replay':
            self.holders.append(h.replayed())
            if len(self.holders) > 4:
                self.holders.pop(0)
        else:
            getattr(h, what)()
        for i, a in enumerate(self.holders):
            a.judge()
            for b in self.holders[:i + 1]:
                self.compare(a, b)

    def compare(self, a, b):
        ctx = self.ctx
        if a.kind != b.kind:
            return
        want = a.ref == b.ref and (a.kind != 'task' or (
            a.initial == b.initial and a.terminal == b.terminal))
        for x, y in ((a.g, b.g), (b.g, a.g)):
            ctx.check(bool(x == y) == want and bool(x != y) != want, 'equality',
                      lambda: 'graphs {} and {} compare {}'.format(
                          a.show(), b.show(), x == y))
        if a is not b:
            ctx.probe('equal' if want else 'different')


class Holder:

    def __init__(self, world, kind=None):
        self.w = world
        self.ctx, self.ch, ns = world.ctx, world.ch, world.ns
        self.kind = kind or self.ch.pick(['base', 'task', 'task', 'conjugate'])
        self.g = {'base': ns.task.BaseGraph, 'task': ns.task.TaskGraph,
                  'conjugate': ns.task.ConjugateTaskGraph}[self.kind]()
        self.ref = set()
        self.initial, self.terminal = set(), set()
        self.n = 0

    def show(self):
        return '{} {}{}'.format(
            self.kind, sorted(self.ref, key=str), ' {} {}'.format(
                sorted(self.initial, key=str), sorted(self.terminal, key=str))
            if self.kind == 'task' else '')

    def real(self, t):
        w = self.w
        return w.node(t[0]), w.label(t[1]), w.node(t[2])

    def any_node(self):
        return self.ch.draw(self.w.n_nodes)

    def any(self):
        return (self.any_node(), self.ch.draw(self.w.n_labels),
                self.any_node())

    def add(self):
        t = self.any()
        self.ctx.event(t)
        if t in self.ref:
            self.ctx.probe('added-again')
        self.ctx.probe('added')
        self.g.add_transition(*self.real(t))
        self.ref.add(t)

    def remove(self):
        ctx, ch = self.ctx, self.ch
        if self.ref and ch.chance(.7):
            t = ch.pick(sorted(self.ref, key=str))
        else:
            t = self.any()
        ctx.event(t)
        try:
            self.g.remove_transition(*self.real(t))
            ok = True
        except KeyError:
            ok = False
        ctx.check(ok == (t in self.ref), 'removal', lambda: 'removal of {} '
                  'from {} {}'.format(t, self.show(), 'succeeds' if ok else
                                      'is refused'))
        if not ok:
            ctx.fault('removal-of-absent')
            return
        self.ref.discard(t)
        ctx.probe('removed')
        if not any(s == t[0] for s, _, _ in self.ref):
            ctx.probe('emptied-source')

    def path(self):
        """Steps of a path, maybe broken."""
        ctx, ch, w = self.ctx, self.ch, self.w
        if self.kind != 'task' or w.what != 'state':
            return self.add()
        n = ch.draw(4)
        steps = [self.any_node()]
        for _ in range(n):
            steps += [ch.draw(w.n_labels), self.any_node()]
        path = [w.label(x) if i % 2 else w.node(x)
                for i, x in enumerate(steps)]
        kind = ch.weighted([(6, None), (1, 'empty'), (1, 'cut'),
                            (1, 'swapped')])
        if kind == 'empty':
            steps, path = [], []
            ctx.probe('empty-path')
        elif kind == 'cut':
            path = path + [w.label(0)]
        elif kind == 'swapped':
            path = [w.label(0)] + path
        try:
            self.g.add_path(path)
            ok = True
        except ValueError:
            ok = False
        ctx.event('path', steps, kind)
        ctx.check(ok == (kind in (None, 'empty')), 'path', lambda: 'path {} '
                  '({}) {}'.format(steps, kind, 'is accepted' if ok else
                                   'is refused'))
        if not ok:
            ctx.fault('broken-path')
            return
        ctx.probe('path')
        if steps:
            self.initial.add(steps[0])
            self.terminal.add(steps[-1])
        for i in range(0, len(steps) - 2, 2):
            self.ref.add(tuple(steps[i:i + 3]))

    def merge(self):
        """Several nodes become one."""
        ch, w = self.ch, self.w
        nodes = {i for i in range(w.n_nodes) if ch.chance(.4)}
        if ch.chance(.3):
            nodes.add('m')
        new = 'm'
        if nodes - {'m'} and ch.chance(.3):
            new = ch.pick(sorted(nodes - {'m'}))
            self.ctx.probe('merged-to-member')
        self.ctx.event('merge', sorted(nodes, key=str), new)
        make = ch.pick([list, set, tuple])
        self.g.compact(make([w.node(i) for i in sorted(nodes, key=str)]),
                       w.node(new))
        self.ctx.probe('merged')
        out = set()
        for s, l, d in self.ref:
            a, b = s in nodes, d in nodes
            if a and b:
                continue
            out.add((new if a else s, '' if a or b else l, new if b else d))
        self.ref = out

    def twin(self, g):
        h = Holder.__new__(Holder)
        h.__dict__.update(self.__dict__)
        h.g, h.ref = g, set(self.ref)
        h.initial, h.terminal = set(self.initial), set(self.terminal)
        h.n = 0
        return h

    def copied(self):
        if self.ch.chance(.5):
            self.ctx.probe('pickled')
            return self.twin(pickle.loads(pickle.dumps(self.g)))
        self.ctx.probe('copied')
        return self.twin(copy.deepcopy(self.g))

    def replayed(self):
        """The same graph built again in another way."""
        ch, ctx = self.ch, self.ctx
        h = Holder(self.w, self.kind)
        ctx.probe('same-by-another-way')
        todo = sorted(self.ref, key=str)
        if todo and ch.chance(.5):
            ctx.fault('duplicated')
            todo += [ch.pick(todo)]
        extra = [self.any() for _ in range(ch.draw(3))]
        extra = [t for t in extra if t not in self.ref]
        todo += extra
        ctx.fault('reordered')
        for _ in range(len(todo)):
            t = todo.pop(ch.draw(len(todo)))
            h.g.add_transition(*self.real(t))
        for t in set(extra):
            h.g.remove_transition(*self.real(t))
        h.ref = set(self.ref)
        if self.kind == 'task':
            # the ends of the paths are given as they are
            for i in self.initial:
                h.g.initial.add(self.w.node(i))
            for i in self.terminal:
                h.g.terminal.add(self.w.node(i))
            h.initial, h.terminal = set(self.initial), set(self.terminal)
        return h

    # What every query says

    def judge(self):
        ctx, w, ch = self.ctx, self.w, self.ch
        got = [(w.back(s), w.back(l, True), w.back(d))
               for s, l, d in self.g.all_transitions()]
        ctx.check(len(got) == len(set(got)) and set(got) == self.ref,
                  'transitions', lambda: 'transitions {} instead of {}'.format(
                      sorted(got, key=str), self.show()))
        nodes = {x for s, _, d in self.ref for x in (s, d)}
        got = [w.back(x) for x in self.g.all_nodes()]
        ctx.check(len(got) == len(set(got)) and set(got) == nodes, 'nodes',
                  lambda: 'nodes {} instead of {}'.format(got, nodes))
        for s, l, d in self.ref:
            if s == d:
                ctx.probe('self-loop')
            if sum(x[0] == s and x[2] == d for x in self.ref) > 1:
                ctx.probe('two-labels')
        t = self.any()
        ctx.check(bool(self.g.has_transition(*self.real(t))) ==
                  (t in self.ref), 'has', lambda: 'has {} in {}: {}'.format(
                      t, self.show(), t not in self.ref))
        if ch.chance(.2):
            self.description(nodes)
        if self.kind == 'task':
            self.task()

    def description(self, nodes):
        ctx, w = self.ctx, self.w
        ctx.probe('description')
        name = ch_name(self.ch)
        d = self.g.as_dictionary(name)
        ids = {x['id']: x['value']['label'] for x in d['nodes']}
        ctx.check(d['name'] == name and len(ids) == len(d['nodes']) ==
                  len(nodes), 'description', lambda: 'description {} of '
                  '{}'.format(d, self.show()))
        got = sorted((ids.get(x['u']), x['value']['label'], ids.get(x['v']))
                     for x in d['links'])
        want = sorted(tuple(str(x) for x in self.real(t)) for t in self.ref)
        if w.what == 'state':
            # states are not named, only counted
            deg = []
            for links in ([(x['u'], x['v']) for x in d['links']],
                          [(t[0], t[2]) for t in self.ref]):
                deg.append(sorted((sum(u == n for u, v in links),
                                   sum(v == n for u, v in links),
                                   sum(u == v == n for u, v in links))
                                  for n in {x for l in links for x in l}))
            ctx.check(deg[0] == deg[1], 'description', lambda: 'description '
                      '{} of {}'.format(d, self.show()))
        else:
            ctx.check(got == want, 'description', lambda: 'description {} of '
                      '{}'.format(d, self.show()))

    def task(self):
        ctx, w, ch = self.ctx, self.w, self.ch
        for name in ('initial', 'terminal'):
            got = sorted(str(w.back(x)) for x in getattr(self.g, name))
            want = sorted(str(x) for x in getattr(self, name))
            ctx.check(got == want, 'ends', lambda: '{} states {} instead of {}'
                      .format(name, got, want))
        det = len({(s, l) for s, l, _ in self.ref}) == len(self.ref)
        try:
            self.g.check_only_deterministic_transitions()
            ok = True
        except ValueError:
            ok = False
        ctx.probe('deterministic' if det else 'not-deterministic')
        ctx.check(ok == det, 'deterministic', lambda: '{} is {}taken to be '
                  'deterministic'.format(self.show(), '' if ok else 'not '))
        if w.what != 'state':
            return
        # a walk, along transitions or not
        steps = [ch.pick(sorted(self.initial)) if self.initial and
                 ch.chance(.8) else self.any_node()]
        for _ in range(ch.draw(4)):
            nxt = sorted((t for t in self.ref if t[0] == steps[-1]), key=str)
            if nxt and ch.chance(.9):
                t = ch.pick(nxt)
            else:
                t = self.any()
            if t[1] == '' or t[2] == 'm':
                break
            steps += [t[1], t[2]]
        want = steps[0] in self.initial and steps[-1] in self.terminal and all(
            tuple(steps[i:i + 3]) in self.ref
            for i in range(0, len(steps) - 2, 2))
        got = self.g.has_path([w.label(x) if i % 2 else w.node(x)
                               for i, x in enumerate(steps)])
        ctx.probe('has-path' if want else 'no-path')
        ctx.check(bool(got) == want, 'has-path', lambda: 'path {} in {}: {}'
                  .format(steps, self.show(), got))


def ch_name(ch):
    return ch.pick(['x', '', 'Task 1'])
