"""A simulated pomdp-solve: reads the model file it is given, writes a policy
(or not), and ends in any way a real program can.
"""
import errno
import math
import os
import re

import numpy as np

from . import fsio
from .popen import Outcome

VALUED = ('time_limit', 'horizon', 'rand_seed', 'method', 'fg_type', 'o',
          'pomdp', 'p', 'epsilon', 'fg_points', 'fg_save', 'stop_criteria',
          'discount', 'stdout', 'memory_limit', 'vi_variation')


def parse_args(argv):
    """dict of options, or an error."""
    d = {}
    i = 1
    while i < len(argv):
        a = argv[i]
        if not a.startswith('-') or a[1:] not in VALUED:
            return None, 'unknown option {!r}'.format(a)
        if i + 1 >= len(argv):
            return None, 'no value for {!r}'.format(a)
        if a[1:] in d:
            return None, '{!r} is given twice'.format(a)
        d[a[1:]] = argv[i + 1]
        i += 2
    for k in ('time_limit', 'horizon', 'rand_seed'):
        if k in d and not re.match(r'^-?\d+$', d[k]):
            return None, '-{} {}: not a number'.format(k, d[k])
    if d.get('method', 'incprune') not in (
            'incprune', 'grid', 'enum', 'twopass', 'linsup', 'witness'):
        return None, 'method ' + d['method']
    if d.get('fg_type', 'simplex') not in ('simplex', 'pairwise', 'search',
                                           'initial'):
        return None, 'fg_type ' + d['fg_type']
    return d, None


class Policy:
    """What the solver found."""

    def __init__(self, ch, n_states, n_actions, n_obs):
        n = ch.between(1, 5)
        if ch.chance(.2):
            # (indices of two digits)
            n += 8
        self.actions = [ch.draw(n_actions) for _ in range(n)]
        p_none = ch.pick([0., .3, 1.])
        self.transitions = [[None if ch.chance(p_none) else ch.draw(n)
                             for _ in range(n_obs)] for _ in range(n)]
        style = ch.pick(['fixed', 'short', 'exp', 'int'])
        self.numbers = []
        for _ in range(n):
            row = []
            for _ in range(n_states):
                v = (ch.draw(4001) - 2000) / 100.
                row.append({'fixed': '%.20f' % v, 'short': repr(v),
                            'exp': '%.6e' % v, 'int': '%d.' % v}[style])
            self.numbers.append(row)

    def alpha(self):
        return ''.join('{}\n{} \n\n'.format(a, ' '.join(r))
                       for a, r in zip(self.actions, self.numbers))

    def pg(self):
        return ''.join('{} {}  {} \n'.format(
            i, a, ' '.join('-' if t is None else str(t) for t in ts))
            for i, (a, ts) in enumerate(zip(self.actions, self.transitions)))


def read_output(alpha, pg, n_states, n_actions, n_obs):
    """Strict reading of what the solver left: (actions, transitions, values)
    or None when it is no consistent policy."""
    if alpha is None or pg is None:
        return None
    try:
        lines = [l for l in alpha.split('\n') if l.strip()]
        if not lines or len(lines) % 2:
            return None
        actions = [_nat(l.strip()) for l in lines[::2]]
        values = [[_real(x) for x in l.split()] for l in lines[1::2]]
        trans, acts = [], []
        body = pg[:-1] if pg.endswith('\n') else pg
        for i, l in enumerate(body.split('\n')):
            f = l.split()
            if len(f) < 2 or _nat(f[0]) != i:
                return None
            acts.append(_nat(f[1]))
            trans.append([None if x == '-' else _nat(x) for x in f[2:]])
    except ValueError:
        return None
    n = len(actions)
    if acts != actions or any(a >= n_actions for a in actions):
        return None
    if any(len(v) != n_states for v in values):
        return None
    if any(len(t) != n_obs for t in trans):
        return None
    if any(x is not None and x >= n for t in trans for x in t):
        return None
    return actions, trans, values


def _nat(s):
    if not re.match(r'^\d+$', s):
        raise ValueError(s)
    return int(s)


def _real(s):
    if not re.match(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$', s):
        raise ValueError(s)
    v = float(s)
    if not math.isfinite(v):
        raise ValueError(s)
    return v


ENDINGS = ('exit-status', 'killed', 'cannot-start', 'no-memory')
OUTPUTS = ('missing-alpha', 'missing-pg', 'missing-both', 'truncated-alpha',
           'truncated-pg', 'empty-pg', 'empty-alpha', 'action-mismatch',
           'action-too-large', 'action-negative', 'node-too-large',
           'node-negative', 'node-order', 'short-vector', 'long-vector',
           'missing-transition', 'extra-transition', 'garbage-number',
           'garbage-pg', 'nodes-differ', 'truncated-both')


def spoil(ch, kind, alpha, pg, pol, n_actions):
    """Output files of a run that went wrong."""
    n = len(pol.actions)
    la, lp = alpha.split('\n'), pg.split('\n')
    k = ch.draw(n)
    if kind == 'missing-alpha':
        return None, pg
    if kind == 'missing-pg':
        return alpha, None
    if kind == 'missing-both':
        return None, None
    if kind in ('truncated-alpha', 'truncated-both'):
        alpha = alpha[:ch.draw(len(alpha))]
    if kind in ('truncated-pg', 'truncated-both'):
        pg = pg[:ch.draw(len(pg))]
    if kind.startswith('truncated'):
        return alpha, pg
    if kind == 'empty-pg':
        return alpha, ''
    if kind == 'empty-alpha':
        return '', pg
    bad = {'action-too-large': n_actions + ch.draw(3),
           'action-negative': -1 - ch.draw(n_actions)}.get(kind)
    if bad is not None:
        la[3 * k] = str(bad)
        lp[k] = replace_field(lp[k], 1, bad)
    elif kind == 'action-mismatch':
        a = pol.actions[k]
        b = (a + 1) % n_actions if n_actions > 1 else a + 1
        lp[k] = replace_field(lp[k], 1, b)
    elif kind in ('node-too-large', 'node-negative'):
        bad = n + ch.draw(3) if kind == 'node-too-large' else -1 - ch.draw(n)
        if len(pol.transitions[k]):
            lp[k] = replace_field(lp[k], 2 + ch.draw(len(pol.transitions[k])),
                                  bad)
    elif kind == 'node-order':
        lp[k] = replace_field(lp[k], 0, k + 1 + ch.draw(2))
    elif kind == 'short-vector':
        la[3 * k + 1] = ' '.join(la[3 * k + 1].split()[:-1]) + ' '
    elif kind == 'long-vector':
        la[3 * k + 1] += '1.0 '
    elif kind == 'missing-transition':
        lp[k] = ' '.join(lp[k].split(' ')[:-2]) + ' '
    elif kind == 'extra-transition':
        lp[k] += '0 '
    elif kind == 'garbage-number':
        v = la[3 * k + 1].split()
        i = ch.draw(len(v))
        v[i] = ch.pick(['x', '1.0e', '-', '1,5', '0x1F', '1.5.2'])
        la[3 * k + 1] = ' '.join(v) + ' '
    elif kind == 'garbage-pg':
        lp[k] = replace_field(lp[k], ch.draw(3), ch.pick(['x', '*', '1.5']))
    elif kind == 'nodes-differ':
        if ch.chance(.5) and n > 1:
            del la[-4:-1]
        else:
            lp.insert(n, '{} 0  {} '.format(n, ' '.join(
                '0' for _ in pol.transitions[0])))
    return '\n'.join(la), '\n'.join(lp)


def replace_field(line, i, value):
    """i: 0 node, 1 action, 2.. transitions."""
    f = line.split()
    f[i] = str(value)
    return '{} {}  {} '.format(f[0], f[1], ' '.join(f[2:]))


class Solver:
    """Handler for the simulated pomdp-solve."""

    def __init__(self, ctx, shape):
        self.ctx, self.ch = ctx, ctx.ch
        self.shape = shape            # states, actions, observations
        self.ending = None
        self.output = None
        self.on_model = None          # called with the text of the model
        self.reset()

    def reset(self):
        self.called = 0
        self.opts = None
        self.opt_error = None
        self.left = (None, None)
        self.rc = None
        self.model_text = None
        self.policy = None

    def make_policy(self):
        return Policy(self.ch, *self.shape)

    def __call__(self, call):
        ctx, ch = self.ctx, self.ch
        self.called += 1
        if self.ending in ('cannot-start', 'no-memory'):
            ctx.fault('solver-' + self.ending)
            self.rc = 'not started'
            return FileNotFoundError(errno.ENOENT, 'No such file') \
                if self.ending == 'cannot-start' else OSError(
                    errno.ENOMEM, 'Cannot allocate memory')
        self.opts, self.opt_error = parse_args(call.argv)
        if self.opts is None:
            self.rc = 1
            return Outcome(1, b'', b'usage\n')
        path = self.opts.get('pomdp') or self.opts.get('p')
        try:
            with fsio._real_open(os.path.join(call.cwd, path)) as f:
                self.model_text = f.read()
        except (OSError, TypeError):
            self.opt_error = 'no model file ' + str(path)
            self.rc = 1
            return Outcome(1, b'', b'cannot open\n')
        if self.on_model is not None:
            self.on_model(self.model_text)
        pol = self.policy = self.make_policy()
        alpha, pg = pol.alpha(), pol.pg()
        rc = 0
        kind = self.output
        if self.ending == 'exit-status':
            rc = ch.pick([1, 2, 255, 127])
        elif self.ending == 'killed':
            rc = ch.pick([-9, -15, -11])
        if self.ending is not None:
            ctx.fault('solver-' + self.ending)
            kind = kind or ch.pick([None, 'missing-both', 'truncated-pg'])
        if kind is not None:
            ctx.fault('output-' + kind)
            alpha, pg = spoil(ch, kind, alpha, pg, pol, self.shape[1])
        o = self.opts.get('o')
        if o is None:
            o = os.path.splitext(path)[0] + '-%d' % ch.draw(1 << 15)
        base = os.path.join(call.cwd, o)
        for ext, text in (('.alpha', alpha), ('.pg', pg)):
            if text is not None:
                with fsio._real_open(base + ext, 'w') as f:
                    f.write(text)
        self.left = alpha, pg
        self.rc = rc
        ctx.event('solver', rc, kind, repr(alpha)[:300], repr(pg)[:300])
        return Outcome(rc, b'//** a lot of output\n', b'', duration=3.)
