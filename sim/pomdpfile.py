"""Independent reader of the Cassandra .pomdp file format (the subset with
values: reward, and matrices), as the solver on the other side would read it.
"""
import math
import re

import numpy as np

NAME = re.compile(r'^[A-Za-z][A-Za-z0-9_\-]*$')
TOL = 1.5e-5


class FormatError(Exception):
    pass


def parse(text):
    """dict with discount, states, actions, observations, start, T, O, R, all
    indexed in declaration order."""
    lines = []
    for raw in text.split('\n'):
        lines.append(raw.split('#', 1)[0])
    toks = ' \n '.join(l.replace(':', ' : ') for l in lines)
    toks = [t for t in re.split(r'[ \t\r\n]+', toks) if t]
    p = _Parser(toks)
    return p.run()


class _Parser:

    KEYS = ('discount', 'values', 'states', 'actions', 'observations',
            'start', 'T', 'O', 'R')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise FormatError('unexpected end of file')
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, s):
        x = self.next()
        if x != s:
            raise FormatError('expected {!r}, got {!r}'.format(s, x))

    def number(self):
        x = self.next()
        if not re.match(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$', x):
            raise FormatError('not a number: {!r}'.format(x))
        v = float(x)
        if not math.isfinite(v):
            raise FormatError('not finite: ' + x)
        return v

    def at_section(self):
        return (self.peek() in self.KEYS and self.peek(1) == ':'
                ) or self.peek() is None

    def names(self, what):
        out = []
        while not self.at_section():
            out.append(self.next())
        if len(out) == 1 and out[0].isdigit():
            n = int(out[0])
            if n < 1:
                raise FormatError('no ' + what)
            return [str(i) for i in range(n)]
        if not out:
            raise FormatError('no ' + what)
        for x in out:
            if not NAME.match(x):
                raise FormatError('{!r} is no name in {}'.format(x, what))
            if x in self.KEYS:
                raise FormatError('{!r} is reserved'.format(x))
        if len(set(out)) != len(out):
            raise FormatError('duplicate ' + what)
        return out

    def ident(self, names):
        x = self.next()
        if x in names:
            return names.index(x)
        if x.isdigit() and int(x) < len(names):
            return int(x)
        raise FormatError('{!r} is unknown among {}'.format(x, names))

    def row(self, n, what):
        v = np.array([self.number() for _ in range(n)])
        if (v < 0.).any() or (v > 1. + TOL).any():
            raise FormatError('{}: not probabilities: {}'.format(what, v))
        if abs(v.sum() - 1.) > TOL:
            raise FormatError('{}: probabilities sum to {}'.format(
                what, v.sum()))
        return v

    def run(self):
        d = {}
        for key in ('discount', 'values', 'states', 'actions',
                    'observations'):
            self.expect(key)
            self.expect(':')
            if key == 'discount':
                d[key] = self.number()
                if not 0. <= d[key] <= 1.:
                    raise FormatError('discount {}'.format(d[key]))
            elif key == 'values':
                d[key] = self.next()
                if d[key] not in ('reward', 'cost'):
                    raise FormatError('values: ' + d[key])
            else:
                d[key] = self.names(key)
        S, A, Z = d['states'], d['actions'], d['observations']
        ns, na, nz = len(S), len(A), len(Z)
        d['start'] = np.full(ns, 1. / ns)
        T = np.full((na, ns, ns), np.nan)
        O = np.full((na, ns, nz), np.nan)
        R = np.zeros((na, ns, ns, nz))
        seen = set()
        while self.peek() is not None:
            key = self.next()
            self.expect(':')
            if key == 'start':
                d['start'] = self.row(ns, 'start')
            elif key in 'TO' and len(key) == 1:
                a = self.ident(A)
                if (key, a) in seen:
                    raise FormatError('{} : {} given twice'.format(key, a))
                seen.add((key, a))
                m, n = (T, ns) if key == 'T' else (O, nz)
                for s in range(ns):
                    m[a, s] = self.row(n, '{} : {} row {}'.format(
                        key, A[a], S[s]))
            elif key == 'R':
                a = self.ident(A)
                self.expect(':')
                s = self.ident(S)
                if (key, a, s) in seen:
                    raise FormatError('R : {} : {} given twice'.format(a, s))
                seen.add((key, a, s))
                for s2 in range(ns):
                    for z in range(nz):
                        R[a, s, s2, z] = self.number()
            else:
                raise FormatError('unknown section {!r}'.format(key))
            if not self.at_section():
                raise FormatError('more entries than expected in {}: {!r}'
                                  .format(key, self.peek()))
        if np.isnan(T).any() or np.isnan(O).any():
            raise FormatError('some probabilities are not given')
        d.update(T=T, O=O, R=R if d['values'] == 'reward' else -R)
        return d
