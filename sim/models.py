"""Random matrix models (names, costs, random transformations) for the checks
of files and policies."""
import numpy as np

from . import loader, planner

ODD = ['s', 'before-a', 'H-get-leg', 'end', 'A_b', 'x9', 'init-mount-top']


def random_names(ch, n, prefix):
    kind = ch.draw(3)
    if kind == 0:
        return None
    if kind == 1:
        return [prefix + str(i) for i in range(n)]
    return ['{}-{}_{}'.format(prefix, ch.pick(ODD), i) for i in range(n)]


def random_pomdp(ctx, ns=None, **kw):
    """(model, arrays as the caller meant them with values as rewards)"""
    ch = ctx.ch
    ns = ns or loader.load()
    T, O, R, start, discount = planner.random_arrays(ch, **kw)
    if ch.chance(.3):
        noise(ch, T, O, start)
    if ch.chance(.3):
        R = R / 7.
    discount = ch.pick([discount, .95, 1., .123, None])
    if discount is None:
        discount = 1. / (1. + ch.between(1, 30) / 7.)
    a, s, o = O.shape
    names = (random_names(ch, s, 's'), random_names(ch, a, 'a'),
             random_names(ch, o, 'o'))
    values = ch.pick(['reward', 'cost'])
    m = ns.pomdp.POMDP(T.copy(), O.copy(),
                       R.copy() if values == 'reward' else -R, start.copy(),
                       discount, states=names[0], actions=names[1],
                       observations=names[2], values=values)
    ctx.event('pomdp', s, a, o, discount, names, values)
    return m, (T, O, R, start, discount)


def noise(ch, *arrays):
    """Probabilities with many digits."""
    rs = np.random.RandomState(ch.draw(1 << 16))
    for x in arrays:
        x += rs.random_sample(x.shape) ** ch.pick([1, 4, 30])
        x /= x.sum(-1)[..., None]


def snapshot(m):
    """What the model is, independently of the object."""
    return {'T': np.array(m.T, float), 'O': np.array(m.O, float),
            'R': np.array(m.R, float), 'start': np.array(m.start, float),
            'discount': float(m.discount), 'states': list(m.states),
            'actions': list(m.actions), 'observations': list(m.observations)}


def difference(m, snap):
    """None, or how the model differs from the snapshot (exactly)."""
    for k in ('states', 'actions', 'observations'):
        if list(getattr(m, k)) != snap[k]:
            return '{} are {} instead of {}'.format(k, getattr(m, k), snap[k])
    if float(m.discount) != snap['discount']:
        return 'discount {} instead of {}'.format(m.discount,
                                                  snap['discount'])
    for k in ('T', 'O', 'R', 'start'):
        x = np.asarray(getattr(m, k), float)
        if x.shape != snap[k].shape:
            return '{} has shape {} instead of {}'.format(k, x.shape,
                                                          snap[k].shape)
        if not np.array_equal(x, snap[k]):
            i = np.unravel_index(np.abs(x - snap[k]).argmax(), x.shape)
            return '{}{} is {!r} instead of {!r}'.format(
                k, [int(j) for j in i], float(x[i]), float(snap[k][i]))
    return None
