"""C26: inconsistent models are rejected at construction."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np

from sim import fsio, loader, models, taskmodels
from sim.core import SimCrash

ID = 'C26'
RUNS = {'quick': 20000, 'thorough': 250000}
TECHNIQUE = ('deterministic simulation of stored model descriptions that decay '
             '(bit flips, lost, duplicated and stale records, cut saves) '
             'before they are loaded; oracle is an independent statement of '
             'a consistent model')
RULE = ('random models (also task-derived); each saved description suffers '
        'one to three faults of the storage, or none, before it is loaded by '
        'every route (file, text, dictionary, arrays); non-trivial: the '
        'description still parses after a fault')
COMPONENTS = {
    'real': ['task_models.lib.pomdp', 'task_models.lib.utils', 'json'],
    'stub': ['raw file layer under the scratch directory',
             'decay of the stored bytes']}
ASSUMPTIONS = ['probabilities may be off by 1e-8 + 1e-5 relative, and nothing '
               'is asked between this and 1e-4',
               'what is negative by less than 1e-6 may pass for zero']
PROBES = ('parses', 'does-not-parse', 'consistent', 'damaged-yet-consistent',
          'bad-shape', 'not-normal', 'negative', 'duplicate-name',
          'bad-discount', 'missing', 'bad-values', 'uncertain', 'task-model',
          'undefined', 'unnamed', 'via-file', 'via-text', 'via-dict',
          'via-arrays')
FAULTS = ('bit-flip', 'digit', 'lost-record', 'duplicated-record',
          'stale-record', 'swapped-records', 'sign', 'renamed', 'undefined',
          'transposed', 'cut-save')


def setup():
    loader.load()


def run(ctx):
    np.random.seed(ctx.ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        scenario(ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# What a consistent model is ---------------------------------------------------

def shape(x):
    """Of nested lists of numbers; None if they are not a full array."""
    if isinstance(x, bool):
        return 'odd'
    if isinstance(x, (int, float)):
        return ()
    if not isinstance(x, list):
        return None
    if not x:
        return (0,)
    s = {shape(y) for y in x}
    if len(s) != 1:
        return 'odd' if 'odd' in s and len(s) == 2 else None
    s = s.pop()
    return s if s in (None, 'odd') else (len(x),) + s


def rows(x):
    if x and isinstance(x[0], list):
        for y in x:
            for r in rows(y):
                yield r
    else:
        yield x


def judge(d, values='reward'):
    """'ok', 'unsure', or the reason why it is not a model."""
    if not isinstance(d, dict):
        return 'missing'
    for k in ('T', 'O', 'R', 'start', 'discount'):
        if k not in d:
            return 'missing'
    for k in ('states', 'actions', 'observations'):
        if k not in d:
            return 'unsure'
    if values not in ('reward', 'cost'):
        return 'bad-values'
    names = []
    for k in ('states', 'actions', 'observations'):
        x = d[k]
        if not isinstance(x, list) or not all(
                isinstance(y, (str, int)) and not isinstance(y, bool)
                for y in x):
            return 'unsure'
        names.append(x)
    s, a, o = [len(x) for x in names]
    unsure = s == 0 or a == 0 or o == 0
    for k, want in (('start', (s,)), ('T', (a, s, s)), ('O', (a, s, o)),
                    ('R', (a, s, s, o))):
        got = shape(d[k])
        if got == 'odd':
            unsure = True
        elif got != want:
            return 'bad-shape'
    if unsure:
        return 'unsure'
    for x in names:
        if len(set(x)) != len(x):
            return 'duplicate-name'
    c = d['discount']
    if isinstance(c, bool) or not isinstance(c, (int, float)):
        return 'unsure'
    if c != c:
        return 'undefined'
    if c < 0 or c > 1:
        return 'bad-discount'
    for k in ('start', 'T', 'O'):
        for r in rows(d[k]):
            if any(x != x for x in r):
                return 'undefined'
            if min(r) < -1e-6:
                return 'negative'
            t = abs(sum(r) - 1)
            if t > 1e-4:
                return 'not-normal'
            if t > 9e-6 or min(r) < 0:
                unsure = True
    if any(x != x or x in (float('inf'), float('-inf'))
           for r in rows(d['R']) for x in r):
        unsure = True
    return 'unsure' if unsure else 'ok'


# Decay of what is stored ------------------------------------------------------

KEYS = ['T', 'O', 'R', 'start', 'states', 'actions', 'observations',
        'discount']


def pick_list(ch, d):
    """A random list inside the description, or None."""
    k = ch.pick(['T', 'O', 'R', 'start', 'states', 'actions',
                 'observations'])
    x = d.get(k)
    for _ in range(ch.draw(4)):
        if isinstance(x, list) and x and isinstance(x[0], list):
            x = ch.pick(x)
    return x if isinstance(x, list) and x else None


def pick_row(ch, d, keys=('T', 'O', 'R', 'start')):
    x = d.get(ch.pick(list(keys)))
    while isinstance(x, list) and x and isinstance(x[0], list):
        x = ch.pick(x)
    return x if isinstance(x, list) and x else None


def decay(ctx, text, other):
    """The stored text after one fault."""
    ch = ctx.ch
    kind = ch.pick(['bit-flip', 'digit', 'digit', 'lost-record',
                    'duplicated-record', 'stale-record', 'swapped-records',
                    'sign', 'renamed', 'undefined', 'transposed'])
    if kind == 'bit-flip':
        b = bytearray(text.encode('utf-8'))
        if not b:
            return text
        i = ch.draw(len(b))
        b[i] ^= 1 << ch.draw(8)
        ctx.fault(kind)
        ctx.event(kind, i)
        return b.decode('utf-8', 'replace')
    if kind == 'digit':
        # a flip that leaves a digit, anywhere or in the discount
        where = [i for i, c in enumerate(text) if c in '0123456789']
        k = text.find('"discount"')
        if ch.chance(.2) and k >= 0:
            where = [i for i in where if k < i < k + 20] or where
        if not where:
            return text
        i = ch.pick(where)
        c = chr(ord(text[i]) ^ (1 << ch.draw(4)))
        if c not in '0123456789':
            return text
        ctx.fault(kind)
        ctx.event(kind, i, text[i], c)
        return text[:i] + c + text[i + 1:]
    try:
        d = json.loads(text)
    except ValueError:
        return text
    if not isinstance(d, dict):
        return text
    if kind == 'stale-record':
        k = ch.pick(KEYS)
        if ch.chance(.2):
            d.pop(k, None)
        else:
            d[k] = copy.deepcopy(other[k])
    elif kind == 'sign':
        if ch.chance(.2):
            if isinstance(d.get('discount'), (int, float)):
                d['discount'] = -d['discount']
        else:
            # a row that still sums to one may have a negative part
            r = pick_row(ch, d, ('T', 'O', 'start'))
            if r is None or len(r) < 2 or not all(
                    isinstance(x, (int, float)) for x in r):
                return text
            i, j = ch.draw(len(r)), ch.draw(len(r))
            if ch.chance(.5) and i != j:
                r[j] += 2 * r[i]
            r[i] = -r[i]
    elif kind == 'transposed':
        # written by a program with another order of dimensions
        k = ch.pick(['T', 'O', 'R', 'R'])
        if not isinstance(shape(d.get(k)), tuple):
            return text
        x = np.array(d[k])
        d[k] = x.transpose(ch.shuffled(list(range(x.ndim)))).tolist()
    elif kind == 'undefined':
        x = float('nan')
        if ch.chance(.4):
            d['discount'] = x
        else:
            r = pick_row(ch, d, ('T', 'O', 'start'))
            if r is None:
                return text
            r[ch.draw(len(r))] = x
    elif kind == 'renamed':
        x = d.get(ch.pick(['states', 'actions', 'observations']))
        if not isinstance(x, list) or not x:
            return text
        i, j = ch.draw(len(x)), ch.draw(len(x))
        x[i] = x[j]
    else:
        x = pick_list(ch, d)
        if x is None:
            return text
        i = ch.draw(len(x))
        if kind == 'lost-record':
            x.pop(i)
        elif kind == 'duplicated-record':
            x.insert(ch.draw(len(x) + 1), copy.deepcopy(x[i]))
        else:
            j = ch.draw(len(x))
            x[i], x[j] = x[j], x[i]
    ctx.fault(kind)
    ctx.event(kind)
    return json.dumps(d)


def make(ctx, ns):
    ch = ctx.ch
    if ch.chance(.1):
        ctx.probe('task-model')
        if ch.chance(.5):
            return taskmodels.random_collab(ctx, max_leaves=2,
                                            max_expanded=4)[-1]
        return taskmodels.random_bring(ctx, max_leaves=2)[-1]
    m = models.random_pomdp(ctx, max_s=3, max_a=3, max_o=3)[0]
    if m.states and isinstance(m.states[0], int):
        ctx.probe('unnamed')
    return m


def scenario(ctx, root):
    ch = ctx.ch
    ns = loader.load()
    pd = ns.pomdp
    m = make(ctx, ns)
    other = make(ctx, ns).to_dict()
    path = os.path.join(root, 'model.json')
    hit = 0
    with fsio.FaultFS(ctx, root) as fs:
        if ch.chance(.1):
            fs.arm(ch.pick(['crash', 'power-loss', 'torn-block', 'enospc']),
                   ch.draw(3000))
        try:
            m.save_as_json(path)
        except SimCrash:
            fs.reboot()
        except OSError:
            pass
        if fs.fired:
            ctx.fault('cut-save')
        fs.disarm()
        text = m.as_json()
        if os.path.exists(path):
            with open(path, 'rb') as f:
                text = f.read().decode('utf-8', 'replace')
        n = ch.pick([0, 1, 1, 1, 2, 3])
        for _ in range(n):
            text = decay(ctx, text, other)
        with open(path, 'wb') as f:
            f.write(text.encode('utf-8', 'replace'))
    try:
        d = json.loads(text)
    except ValueError:
        d = None
    ctx.probe('does-not-parse' if d is None else 'parses')
    routes = ['file', 'text']
    if d is not None:
        routes += ['dict', 'arrays']
    for route in ch.shuffled(routes)[:ch.between(1, 3)]:
        values = 'reward'
        if route == 'arrays' and ch.chance(.2):
            values = ch.pick(['cost', 'costs', 'Reward', '', None])
        verdict = 'does-not-parse' if d is None else judge(d, values)
        ctx.probe('via-' + route)
        try:
            got = load(ctx, pd, route, path, text, d, values)
        except Exception as e:
            ctx.event(route, verdict, 'raised', type(e).__name__)
            ctx.check(verdict != 'ok', 'rejected', lambda: 'a consistent model '
                      'is rejected when loaded from {}: {!r}'.format(route, e))
        else:
            ctx.event(route, verdict, 'loaded')
            ctx.check(verdict in ('ok', 'unsure'), 'accepted', lambda: 'a '
                      'model is loaded from {} though its description is '
                      'inconsistent ({}): {}'.format(route, verdict,
                                                     text[:300]))
            if verdict == 'ok':
                e = dict(d)
                R = np.array(d['R'], float)
                snap = {'T': np.array(e['T'], float),
                        'O': np.array(e['O'], float),
                        'R': -R if values == 'cost' else R,
                        'start': np.array(e['start'], float),
                        'discount': float(e['discount']),
                        'states': e['states'], 'actions': e['actions'],
                        'observations': e['observations']}
                x = models.difference(got, snap)
                ctx.check(x is None, 'changed', lambda: 'a model loaded from '
                          '{} is not the one described: {}'.format(route, x))
        if verdict == 'ok':
            ctx.probe('consistent')
            if text != m.as_json():
                ctx.probe('damaged-yet-consistent')
        elif verdict == 'unsure':
            ctx.probe('uncertain')
        elif verdict != 'does-not-parse':
            ctx.probe(verdict)
            hit += 1
    ctx.sim_time += 1
    ctx.nontrivial = d is not None and n > 0
    ctx.sample = {'faults': n, 'bytes': len(text)}


def load(ctx, pd, route, path, text, d, values):
    if route == 'file':
        return pd.POMDP.load_from_json(path)
    if route == 'text':
        return pd.POMDP.from_json(text)
    d = copy.deepcopy(d)
    if route == 'dict':
        return pd.POMDP.from_dict(d)
    return pd.POMDP(np.array(d['T']), np.array(d['O']), np.array(d['R']),
                    np.array(d['start']), d['discount'], states=d['states'],
                    actions=d['actions'], observations=d['observations'],
                    values=values)
