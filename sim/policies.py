"""Random policy graphs."""
import numpy as np

from . import loader


def random_graph(ctx, model=None, max_n=6, no_edge=.25):
    """(GraphPolicy, dict describing it); for a model: its actions and
    observations, values over its states."""
    ch = ctx.ch
    ns = loader.load()
    n = ch.between(1, max_n)
    if model is None:
        n_s = ch.between(1, 4)
        names = ['a%d' % i for i in range(ch.between(1, 3))]
        obs = ['o%d' % i for i in range(ch.between(1, 4))]
        if ch.chance(.2):
            names, obs = list(range(len(names))), list(range(len(obs)))
    else:
        n_s, names, obs = model.n_states, model.actions, model.observations
    p = ch.pick([0., no_edge, .6])
    actions = [ch.pick(names) for _ in range(n)]
    trans = [[None if ch.chance(p) else ch.draw(n) for _ in obs]
             for _ in range(n)]
    values = [[ch.pick([0., 1., -2., 7.5, 1 / 3., ch.draw(100) / 7.])
               for _ in range(n_s)] for _ in range(n)]
    start = init = None
    if ch.chance(.5):
        init = ch.draw(n)
    else:
        start = np.zeros(n_s)
        start[ch.draw(n_s)] += .5
        start[ch.draw(n_s)] += .5
    g = ns.pomdp.GraphPolicy(list(actions), list(obs),
                             [list(t) for t in trans],
                             [list(v) for v in values], start=start,
                             init=init)
    if init is None:
        init = best(values, start)
    d = {'actions': actions, 'observations': list(obs), 'transitions': trans,
         'values': values, 'init': init}
    ctx.event('graph', n, len(obs), init)
    return g, d


def best(values, b):
    """First node of greatest value at a belief."""
    return int(np.asarray(values, float).dot(np.asarray(b, float)).argmax())


def snapshot(g):
    return {'actions': list(g.actions), 'observations': list(g.observations),
            'transitions': [[None if t is None else int(t) for t in row]
                            for row in np.asarray(g.transitions).tolist()],
            'values': np.array(g.values, float), 'init': int(g.init)}


def difference(g, snap):
    """None, or how the graph differs from the snapshot (exactly)."""
    got = snapshot(g)
    for k in ('actions', 'observations', 'transitions', 'init'):
        if got[k] != snap[k]:
            return '{}: {} instead of {}'.format(k, got[k], snap[k])
    if got['values'].shape != snap['values'].shape or \
            not np.array_equal(got['values'], snap['values']):
        return 'values: {} instead of {}'.format(got['values'],
                                                 snap['values'])
    return None
