"""C31: a supportive state is exactly its fields."""
import math

import numpy as np

from sim import loader

ID = 'C31'
RUNS = {'quick': 20000, 'thorough': 400000}
TECHNIQUE = ('deterministic simulation of several holders that write, copy, '
             'exchange as integers and randomly disturb states; oracle is one '
             'plain record per holder')
RULE = ('random layout (up to ninety bits), random interleaved program of the '
        'holders: field writes (plain, boolean, numpy values), copies, '
        'exchanges as integers, random changes of any rate, refused writes, '
        'summaries of random beliefs; every field of every holder is compared '
        'after every operation; non-trivial: ten operations on two holders')
COMPONENTS = {'real': ['task_models.supportive (states, and models as '
                       'their makers)'],
              'stub': ['the holders of the states', 'numpy.random (seeded)']}
ASSUMPTIONS = ['fields are written with values they can take',
               'the order of the summary of preferences is not stated']
PROBES = ('write', 'write-same', 'copied', 'exchanged', 'changes-none',
          'changes-all', 'changes-some', 'rate', 'final', 'not-final', 'wide',
          'beyond-64-bits', 'no-preference', 'no-object', 'body', 'numpy-value',
          'summary', 'all-states', 'of-a-model')
FAULTS = ('random-change',)


def setup():
    loader.load()


class Rec:
    def __init__(self, htm, pref, body, obj):
        self.f = {'htm': htm, 'pref': list(pref), 'body': list(body),
                  'obj': list(obj)}

    def copy(self):
        return Rec(self.f['htm'], self.f['pref'], self.f['body'],
                   self.f['obj'])

    def __str__(self):
        return '{htm} {pref} {body} {obj}'.format(**self.f)


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    cls = ns.supportive._SupportivePOMDPState
    small = ch.chance(.3)
    n_htm = ch.between(1, 4 if small else 9)
    n_p = ch.draw(3 if small else 5)
    n_b = ch.pick([0, 0, 1, 2])
    n_o = ch.draw(4) if small else ch.pick([0, 1, 3, 5, 8, 8, 30, 75])
    bits = n_p + n_b + n_o
    if bits > 30:
        ctx.probe('wide')
    if not n_p:
        ctx.probe('no-preference')
    if not n_o:
        ctx.probe('no-object')
    if n_b:
        ctx.probe('body')
    model = None
    if n_htm >= 3 and n_b == 1 or ch.chance(.15):
        n_htm, n_b = max(3, n_htm), 1
        model = model_of(ns, n_htm, n_p, n_o)
        ctx.probe('of-a-model')
    bits = n_p + n_b + n_o
    ctx.event('layout', n_htm, n_p, n_b, n_o, model is None)

    def new(s=None):
        if model is not None:
            return model._int_to_state() if s is None else \
                model._int_to_state(s)
        return cls(n_htm, n_p, n_b, n_o) if s is None else \
            cls(n_htm, n_p, n_b, n_o, s=s)

    hold = [(new(), Rec(0, [0] * n_p, [0] * n_b, [0] * n_o))]
    seen = {}     # integer -> record: the encoding is one to one

    def fields(s):
        return Rec(s.htm, [s.has_preference(i) for i in range(n_p)],
                   [s.has_body_feature(i) for i in range(n_b)],
                   [s.has_object(i) for i in range(n_o)]).f

    def compare(what):
        for k, (s, r) in enumerate(hold):
            got = fields(s)
            ctx.check(got == r.f, 'fields', lambda: 'after {}: holder {} '
                      'reads {} instead of {}'.format(what, k, got, r.f))
            i = s.to_int()
            ctx.check(0 <= i < s.n_states, 'range', lambda: 'after {}: state '
                      '{} of {}'.format(what, i, s.n_states))
            key = repr(r.f)
            ctx.check(seen.setdefault(int(i), key) == key, 'one-to-one',
                      lambda: 'after {}: {} stands for {} and {}'.format(
                          what, i, seen[int(i)], key))
            fin = r.f['htm'] == n_htm - 1
            ctx.probe('final' if fin else 'not-final')
            ctx.check(bool(s.is_final()) == fin, 'final', lambda: 'after {}: '
                      'position {} of {} is {}final'.format(
                          what, r.f['htm'], n_htm, '' if s.is_final()
                          else 'not '))
            ctx.check((s.n_htm, s.n_preferences, s.n_body_features,
                       s.n_objects) == (n_htm, n_p, n_b, n_o), 'layout',
                      lambda: 'after {}: layout {}'.format(what, (
                          s.n_htm, s.n_preferences, s.n_body_features,
                          s.n_objects)))
            ctx.check(s.n_states == n_htm * 2 ** bits, 'layout', lambda:
                      'after {}: {} states'.format(what, s.n_states))

    compare('start')
    n_ops = 0
    widths = [('pref', n_p), ('body', n_b), ('obj', n_o)]
    for _ in range(ch.between(3, 25)):
        k = ch.draw(len(hold))
        s, r = hold[k]
        what = ch.weighted([(8, 'write'), (2, 'copy'), (2, 'exchange'),
                            (3, 'changes'), (1, 'drop')])
        n_ops += 1
        ctx.sim_time += 1.
        if what == 'write':
            f = ch.pick(['htm'] + [n for n, w in widths if w])
            if f == 'htm':
                v = ch.draw(n_htm)
                same = v == r.f['htm']
                s.htm = np.int64(v) if ch.chance(.2) and bits < 40 else v
                r.f['htm'] = v
                ctx.event('write', k, f, v)
            else:
                i = ch.draw(len(r.f[f]))
                v = ch.draw(2)
                same = v == r.f[f][i]
                x = v
                if ch.chance(.3):
                    ctx.probe('numpy-value')
                    x = ch.pick([bool(v), np.int64(v)]) if bits < 40 \
                        else bool(v)
                {'pref': s.set_preference, 'body': s.set_body_feature,
                 'obj': s.set_object}[f](i, x)
                r.f[f][i] = v
                ctx.event('write', k, f, i, v)
            ctx.probe('write-same' if same else 'write')
        elif what == 'copy' and len(hold) < 4:
            hold.append((s.copy(), r.copy()))
            ctx.probe('copied')
            ctx.event('copy', k)
        elif what == 'exchange':
            ctx.probe('exchanged')
            i = s.to_int()
            if bits > 62 and i > 1 << 62:
                ctx.probe('beyond-64-bits')
            ctx.event('exchange', k, int(i))
            t = new(i)
            if ch.chance(.5) or len(hold) == 4:
                hold[k] = (t, r)
            else:
                hold.append((t, r.copy()))
        elif what == 'drop' and len(hold) > 1:
            del hold[k]
        elif what == 'changes':
            f = ch.pick(['obj', 'pref'])
            p = ch.pick([0., 1., .5, .1])
            before = list(r.f[f])
            (s.random_object_changes if f == 'obj' else
             s.random_preference_changes)(p)
            ctx.fault('random-change')
            if p == 1.:
                r.f[f] = [1 - v for v in before]
                ctx.probe('changes-all')
            elif p == 0.:
                ctx.probe('changes-none')
            else:
                ctx.probe('changes-some')
                r.f[f] = list(fields(s)[f])
                ctx.check(all(v in (0, 1) for v in r.f[f]), 'fields',
                          'a random change writes another value than 0 or 1')
            ctx.event('changes', k, f, p, r.f[f])
        compare('operation {} ({} on holder {})'.format(n_ops, what, k))
    if n_o + n_p and ch.chance(.1):
        rate(ctx, new, n_p, n_o)
    if bits + math.log(n_htm, 2) <= 11:
        summaries(ctx, new, n_htm, n_p, n_b, n_o, fields)
    ctx.nontrivial = n_ops >= 10 and len(hold) >= 2
    ctx.sample = {'layout': [n_htm, n_p, n_b, n_o], 'operations': n_ops,
                  'holders': len(hold)}


def model_of(ns, n_htm, n_p, n_o):
    """A supportive task whose states have this layout."""
    sup, task = ns.supportive, ns.task

    class Step(sup.SupportedAction):

        hold = None

        def __init__(self, i, needs):
            super(Step, self).__init__('step%d' % i)
            self.conditions = [(sup.USES, 'part%d' % o) for o in needs]

    class Model(sup.SupportivePOMDP):
        preferences = ['p%d' % i for i in range(n_p)]
        p_preferences = [.5] * n_p

    n = n_htm - 2
    return Model(task.SequentialCombination(
        [task.LeafCombination(Step(i, range(n_o) if i == 0 else []))
         for i in range(n)]))


def rate(ctx, new, n_p, n_o):
    """Every field changes at the given rate, independently."""
    ctx.probe('rate')
    ch = ctx.ch
    p = ch.pick([.1, .5, .8])
    f = ch.pick(['obj'] * bool(n_o) + ['pref'] * bool(n_p))
    n = n_o if f == 'obj' else n_p
    N = 300
    s = new()
    change, has = ((s.random_object_changes, s.has_object) if f == 'obj'
                   else (s.random_preference_changes, s.has_preference))
    counts = np.zeros(n)
    both = 0
    last = np.array([has(i) for i in range(n)])
    for _ in range(N):
        change(p)
        now = np.array([has(i) for i in range(n)])
        diff = now != last
        counts += diff
        both += int(n > 1 and diff[0] and diff[-1])
        last = now
    ctx.fault('random-change', N)

    def near(c, q):
        return abs(c - N * q) <= 8 * math.sqrt(N * q * (1 - q)) + 8

    ctx.check(all(near(c, p) for c in counts), 'rate', lambda: 'fields '
              'changed {} times in {} changes at rate {}'.format(
                  list(counts), N, p))
    if n > 1:
        ctx.check(near(both, p * p), 'independence', lambda: 'two fields '
                  'changed together {} times in {} changes at rate {}'.format(
                      both, N, p))


def summaries(ctx, new, n_htm, n_p, n_b, n_o, fields):
    """Every integer in range is a state, and summaries are marginals."""
    ch = ctx.ch
    n = new().n_states
    ctx.probe('all-states')
    b = np.zeros(n)
    for _ in range(ch.between(1, 6)):
        b[ch.draw(n)] += 1. + ch.draw(4)
    b /= b.sum()
    q, p = [0.] * n_htm, [0.] * n_p
    keys = set()
    for i in range(n):
        s = new(i)
        f = fields(s)
        ctx.check(0 <= f['htm'] < n_htm, 'range', lambda: 'state {} of {} is '
                  'at position {} of {}'.format(i, n, f['htm'], n_htm))
        keys.add(repr(f))
        if b[i]:
            q[f['htm']] += b[i]
            for j, v in enumerate(f['pref']):
                p[j] += b[i] * v
        t = new()
        t.htm = f['htm']
        for j, v in enumerate(f['pref']):
            t.set_preference(j, v)
        for j, v in enumerate(f['body']):
            t.set_body_feature(j, v)
        for j, v in enumerate(f['obj']):
            t.set_object(j, v)
        ctx.check(t.to_int() == i, 'one-to-one', lambda: 'the fields of state '
                  '{} written again give {}'.format(i, t.to_int()))
        if n > 300:
            break
    else:
        ctx.check(len(keys) == n, 'one-to-one', lambda: '{} states have {} '
                  'different fields'.format(n, len(keys)))
    if n > 300:
        for i in np.nonzero(b)[0]:
            f = fields(new(int(i)))
            q[f['htm']] += b[i] * (i > 0)
            for j, v in enumerate(f['pref']):
                p[j] += b[i] * v * (i > 0)
    ctx.probe('summary')
    s = new()
    got = list(s.belief_quotient(b))
    ctx.check(len(got) == n_htm and np.allclose(got, q), 'summary', lambda:
              'positions {} instead of {}'.format(got, q))
    got = list(s.belief_preferences(b))
    ctx.check(len(got) == n_p and np.allclose(sorted(got), sorted(p)),
              'summary', lambda: 'preferences {} instead of {}'.format(got, p))
