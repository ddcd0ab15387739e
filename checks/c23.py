"""C23: demonstrations merge into the same task graph in any order."""
import numpy as np

from sim import loader

ID = 'C23'
RUNS = {'quick': 4500, 'thorough': 120000}
TECHNIQUE = ('deterministic simulation of demonstrators sending '
             'demonstrations over a channel that reorders, duplicates, loses '
             'and damages them; oracle is a set model of what arrived')
RULE = ('random snap-circuit assemblies or vector states by one to four '
        'demonstrators, every state and action rebuilt for each message with '
        'its parts in another order; two channels deliver the same '
        'demonstrations in different orders; non-trivial: four transitions '
        'from two demonstrations')
COMPONENTS = {
    'real': ['task_models.task', 'task_models.snap_circuit',
             'task_models.state', 'task_models.action'],
    'stub': ['demonstrators and their channel']}
ASSUMPTIONS = ['demonstrations shorter than the recursion limit']
PROBES = ('snap', 'vector', 'ambiguous', 'conjugate', 'empty', 'single-state',
          'ends-midway', 'known', 'unknown', 'two-orders', 'self-loop',
          'many-parts', 'mixed-types')
FAULTS = ('reordered', 'duplicated', 'lost', 'malformed')
KINDS = ('cut-end', 'cut-start', 'swapped', 'wrong-action', 'not-a-state',
         'not-an-action', 'wrong-before', 'wrong-after')


def setup():
    loader.load()


class Snap:
    """Assemblies of parts on a board. Canonical state: frozenset of
    (location, part number); action: (part number, location)."""

    def __init__(self, ctx, ns):
        self.ctx, self.ch, self.sc = ctx, ctx.ch, ns.snap_circuit
        ch = self.ch
        ctx.probe('snap')
        self.board = ch.pick([(2, 3), (7, 9), (1, 1)])
        r, c = self.board
        self.locs = [(ch.draw(r), ch.draw(c), ch.draw(4)) for _ in range(5)]
        self.n = ch.between(1, 6)

    def state(self, c):
        parts = self.ch.shuffled(sorted(c))
        if parts and self.ch.chance(.3):
            parts.append(parts[0])
        if len(parts) > 4:
            self.ctx.probe('many-parts')
        return self.sc.SnapCircuitState(
            self.board, [(l, self.sc.SnapCircuitPart(p, 'part%d' % p))
                         for l, p in parts])

    def action(self, c):
        p, l = c
        return self.sc.PlaceAction(
            self.board, self.sc.SnapCircuitPart(p, 'part%d' % p), l)

    def start(self):
        ch = self.ch
        return frozenset((ch.pick(self.locs), ch.draw(self.n))
                         for _ in range(ch.pick([0, 0, 2, 6])))

    def ok(self, s, a, s2):
        p, l = a
        return (l, p) not in s and (l, p) in s2

    def next(self, s, noisy):
        """(action, next state) or None."""
        ch = self.ch
        free = [(p, l) for p in range(self.n) for l in sorted(set(self.locs))
                if (l, p) not in s]
        if not free:
            return None
        p, l = ch.pick(free)
        s2 = s | {(l, p)}
        if noisy:
            # something else changed too
            p2, l2 = ch.draw(self.n), ch.pick(self.locs)
            if (p2, l2) != (p, l):
                s2 = s2 ^ {(l2, p2)}
        return (p, l), frozenset(s2)

    def read_state(self, s):
        return frozenset((tuple(l), p.id) for l, p in s.parts)

    def read_action(self, a):
        return (a.part.id, tuple(a.location))


class Vector:
    """Small vectors; an action requires a value of one feature before and
    after."""

    def __init__(self, ctx, ns):
        self.ctx, self.ch, self.ns = ctx, ctx.ch, ns
        ctx.probe('vector')
        self.dim = self.ch.between(1, 3)
        self.mixed = self.ch.chance(.5)
        if self.mixed:
            ctx.probe('mixed-types')

    def state(self, c):
        v = np.array(c, float)
        if self.mixed:
            k = self.ch.draw(3)
            if k == 1:
                v = np.array(c, int)
            elif k == 2:
                v = np.where(v == 0, -0., v)
        return self.ns.state.NDimensionalState(v)

    def action(self, c):
        i, before, after = c
        m = np.zeros(self.dim)
        m[i] = 1
        if self.mixed:
            m = m.astype(self.ch.pick([float, int, 'int8', 'float32']))
        A = self.ns.action
        return A.PrePostConditionAction(
            A.Condition(m, m * before), A.Condition(m, m * after),
            name='{} from {} to {}'.format(*c))

    def start(self):
        return tuple(self.ch.draw(3) for _ in range(self.dim))

    def ok(self, s, a, s2):
        i, before, after = a
        return s[i] == before and s2[i] == after

    def next(self, s, noisy):
        ch = self.ch
        i = ch.draw(self.dim)
        s2 = list(s)
        s2[i] = ch.draw(3)
        a = (i, s[i], s2[i])
        if noisy:
            j = ch.draw(self.dim)
            if j != i:
                s2[j] = ch.draw(3)
        if tuple(s2) == s:
            self.ctx.probe('self-loop')
        return a, tuple(s2)

    def read_state(self, s):
        return tuple(int(x) for x in np.asarray(s.get_features()).tolist())

    def read_action(self, a):
        i = int(np.nonzero(a.pre.mask)[0][0])
        return (i, int(a.pre.value[i]), int(a.post.value[i]))


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    w = ch.pick([Snap, Vector])(ctx, ns)
    noisy = ch.chance(.3)
    demos = []
    for d in range(ch.between(1, 4)):
        for _ in range(ch.between(1, 3)):
            demos.append((d, demonstration(ch, w, noisy, demos)))
    for d, p in demos:
        if len(p) == 0:
            ctx.probe('empty')
        if len(p) == 1:
            ctx.probe('single-state')
    lost = [i for i in range(len(demos)) if ch.chance(.1)]
    ctx.fault('lost', len(lost))
    kept = [p for i, (_, p) in enumerate(demos) if i not in lost]
    for d, p in demos:
        ctx.event('demonstration', d, p)
    ctx.event('lost', lost)
    a = Receiver(ctx, ns, w)
    a.deliver(kept)
    if ch.chance(.6):
        ctx.probe('two-orders')
        b = Receiver(ctx, ns, w)
        b.deliver(kept)
        ctx.check(a.tg == b.tg and b.tg == a.tg, 'order', lambda: 'two '
                  'receivers of the same demonstrations have different '
                  'graphs: {} and {}'.format(a.read(), b.read()))
        if a.conj is not None and b.conj is not None:
            ctx.check(a.conj == b.conj, 'order', 'two receivers of the same '
                      'demonstrations have different conjugates')
    ctx.sim_time += a.time
    ctx.nontrivial = len(a.edges) >= 4 and len(kept) >= 2
    ctx.sample = {'demonstrations': len(demos), 'transitions': len(a.edges)}


def demonstration(ch, w, noisy, others):
    """Canonical alternation of states and actions."""
    if ch.chance(.03):
        return []
    if others and ch.chance(.5):
        # from where another one passed
        _, p = ch.pick(others)
        k = ch.draw((len(p) + 1) // 2) if p else 0
        path = p[:2 * k + 1] or [w.start()]
        if ch.chance(.3):
            path = path[-1:]
    else:
        path = [w.start()]
    for _ in range(ch.draw(6)):
        n = w.next(path[-1], noisy and ch.chance(.4))
        if n is None:
            break
        path = path + list(n)
    return path


class Receiver:

    def __init__(self, ctx, ns, w):
        self.ctx, self.ch, self.ns, self.w = ctx, ctx.ch, ns, w
        self.tg = ns.task.TaskGraph()
        self.edges, self.first, self.last = set(), set(), set()
        self.time = 0
        self.conj = None

    def build(self, path):
        return [self.w.action(x) if i % 2 else self.w.state(x)
                for i, x in enumerate(path)]

    def deliver(self, demos):
        ctx, ch = self.ctx, self.ch
        order = ch.shuffled(list(range(len(demos))))
        if order != sorted(order):
            ctx.fault('reordered')
        for i in list(order):
            if ch.chance(.15):
                order.insert(ch.draw(len(order) + 1), i)
                ctx.fault('duplicated')
        got = set()
        for i in order:
            self.time += 1 + ch.draw(5)
            if ch.chance(.15):
                self.malformed(demos[i])
            ctx.event('deliver', i)
            self.tg.add_path(self.build(demos[i]))
            got.add(i)
            p = demos[i]
            if p:
                self.first.add(p[0])
                self.last.add(p[-1])
            self.edges |= set(zip(p[0::2], p[1::2], p[2::2]))
            self.compare('after demonstration {}'.format(i))
            for j in got if ch.chance(.3) else [i]:
                ctx.check(self.tg.has_path(self.build(demos[j])),
                          'forgotten', lambda: 'demonstration {} was recorded '
                          'and is not recognised'.format(demos[j]))
                ctx.probe('known')
            j = ch.draw(len(demos))
            self.recognised(demos[j])
            if ch.chance(.3):
                self.conjugate()
        for _ in range(2):
            if demos:
                self.recognised(self.mixture(demos))
        self.conjugate()

    def mixture(self, demos):
        """A path that follows several demonstrations, or none."""
        ch = self.ch
        p = ch.pick(demos)
        if not p:
            return p
        k = ch.draw((len(p) + 1) // 2)
        p = p[2 * k:] if ch.chance(.5) else p[:2 * k + 1]
        for _ in range(ch.draw(3)):
            nxt = sorted((repr(e), e) for e in self.edges if e[0] == p[-1])
            if not nxt:
                break
            p = p + list(ch.pick(nxt)[1][1:])
        return p

    def recognised(self, p):
        want = not p or (p[0] in self.first and p[-1] in self.last and
                         set(zip(p[0::2], p[1::2], p[2::2])) <= self.edges)
        if not want:
            self.ctx.probe('unknown')
        self.ctx.check(self.tg.has_path(self.build(p)) == want, 'recognised',
                       lambda: 'path {} is {}recognised'.format(
                           p, 'not ' if want else ''))

    def malformed(self, p):
        """A damaged message arrives: it must change nothing."""
        ctx, ch, w = self.ctx, self.ch, self.w
        kind = ch.pick(KINDS)
        b = self.build(p)
        if len(b) < 3:
            return
        k = 2 * ch.draw(len(b) // 2)      # a state that is not the last
        if kind == 'cut-end':
            b = b[:k + 2]
        elif kind == 'cut-start':
            b = b[k + 1:]
        elif kind == 'swapped':
            b[k], b[k + 1] = b[k + 1], b[k]
        elif kind == 'not-a-state':
            b[k + 2] = ch.pick([None, 'state', b[k + 1]])
        elif kind == 'not-an-action':
            b[k + 1] = ch.pick([None, 'action', b[k]])
        else:
            # another action or state that does not fit
            c = list(p)
            for _ in range(10):
                if kind == 'wrong-action':
                    n = w.next(w.start(), False)
                    if n is None:
                        continue
                    c[k + 1] = n[0]
                elif kind == 'wrong-before':
                    c[k] = w.start()
                else:
                    c[k + 2] = w.start()
                if not all(w.ok(*t) for t in zip(c[0::2], c[1::2], c[2::2])):
                    break
                c = list(p)
            else:
                return
            b = self.build(c)
        ctx.fault('malformed')
        ctx.event('malformed', kind)
        for f in (self.tg.add_path, self.tg.has_path):
            try:
                f(b)
            except ValueError:
                pass
            except Exception as e:
                ctx.violate('malformed', 'a malformed demonstration ({}) '
                            'raised {!r}'.format(kind, e))
            else:
                ctx.violate('malformed', 'a malformed demonstration ({}) is '
                            'accepted: {}'.format(kind, b))
        self.compare('after a rejected demonstration')

    def read(self):
        w = self.w
        out = []
        for s, a, d in self.tg.all_transitions():
            out.append((w.read_state(s), w.read_action(a), w.read_state(d)))
        return (out, [w.read_state(s) for s in self.tg.initial],
                [w.read_state(s) for s in self.tg.terminal])

    def compare(self, when):
        ctx = self.ctx
        edges, first, last = self.read()
        for what, got, want in (('transitions', edges, self.edges),
                                ('start states', first, self.first),
                                ('end states', last, self.last)):
            ctx.check(set(got) == want, 'graph', lambda: '{} the {} are {} '
                      'instead of {}'.format(when, what, sorted(map(repr, got)),
                                             sorted(map(repr, want))))
            ctx.check(len(got) == len(set(got)), 'twice', lambda: '{} equal {} '
                      'are kept as different ones: {}'.format(
                          when, what, sorted(map(repr, got))))
        nodes = {s for e in self.edges for s in (e[0], e[2])}
        got = self.tg.all_nodes()
        ctx.check(len(got) == len(nodes), 'twice', lambda: '{} {} nodes for '
                  'the states {}'.format(when, len(got), nodes))
        d = self.tg.as_dictionary('x')
        ctx.check(len(d['nodes']) == len(nodes) and
                  len(d['links']) == len(self.edges), 'description', lambda:
                  '{} the graph is described by {} nodes and {} links'.format(
                      when, len(d['nodes']), len(d['links'])))
        # in every order of their parts
        for e in sorted(self.edges, key=repr)[:3]:
            s, a, d = self.build(e)
            ctx.check(self.tg.has_transition(s, a, d), 'forgotten', lambda:
                      '{} transition {} is not known'.format(when, e))

    def conjugate(self):
        ctx, w = self.ctx, self.w
        self.conj = None
        seen = {}
        for s, a, d in self.edges:
            seen.setdefault((s, a), set()).add(d)
        clash = [k for k, v in seen.items() if len(v) > 1]
        try:
            c = self.tg.conjugate()
        except ValueError as e:
            ctx.check(clash, 'conjugate', lambda: 'the conjugate is refused '
                      '({}) though no action is ambiguous'.format(e))
            ctx.probe('ambiguous')
            return
        except Exception as e:
            ctx.violate('conjugate', 'the conjugate raised {!r} on '
                        'transitions {}, starts {}, ends {}'.format(
                            e, self.edges, self.first, self.last))
        ctx.check(not clash, 'ambiguous', lambda: 'ambiguous {} is not '
                  'reported'.format(clash[0]))
        ctx.probe('conjugate')
        I, T = c.initial, c.terminal
        want = set()
        for s, a, d in self.edges:
            if s in self.first:
                want.add(('initial', s, a))
            if d in self.last:
                want.add((a, d, 'terminal'))
            for s2, a2, _ in self.edges:
                if s2 == d:
                    want.add((a, d, a2))
                    if d in self.last:
                        ctx.probe('ends-midway')
        got = []
        for u, l, v in c.all_transitions():
            got.append(('initial' if u is I else w.read_action(u),
                        w.read_state(l),
                        'terminal' if v is T else w.read_action(v)))
        ctx.check(set(got) == want, 'conjugate', lambda: 'the conjugate has '
                  '{} too much and lacks {}'.format(
                      sorted(map(repr, set(got) - want)),
                      sorted(map(repr, want - set(got)))))
        ctx.check(len(got) == len(set(got)), 'twice', 'the conjugate has the '
                  'same transition twice')
        self.conj = c
