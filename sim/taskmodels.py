"""Models built by the program from random hierarchical tasks."""
import numpy as np

from . import htm, loader


def random_collab(ctx, max_leaves=4, max_expanded=8, max_words=40, **flags):
    """Human-robot task model: (converter options, spec, durations, model)."""
    ch = ctx.ch
    ns = loader.load()
    t2p = ns.task_to_pomdp
    spec, n = htm.random_spec(ch, max_leaves=max_leaves, max_words=max_words,
                              max_expanded=max_expanded)
    acts = []
    for i in range(n):
        acts.append({
            'durations': (ch.pick([5., .5, 50., 1e-3, 100.]),
                          ch.pick([20., 3., 1.]), ch.pick([30., 8., 1.])),
            'fail': ch.pick([.1, 0., .5, .01]),
            'no': ch.pick([.1, 0., 1., .5])})
    style = ch.pick(['L%dx', 'Get L%dx leg', 'mount-L%dx'])

    def make(i):
        a = acts[i]
        return t2p.CollaborativeAction(style % i, a['durations'],
                                       fail_probability=a['fail'],
                                       no_probability=a['no'])

    root = htm.build(ns, spec, make)
    opts = {'t_wait': ch.pick([1., 4.]), 't_ask': ch.pick([2., 7.]),
            't_tell': ch.pick([3., .5]), 'intr_cost': ch.pick([0, 1., 2.5]),
            'end_reward': ch.pick([10., .1, 100.])}
    kw = dict(opts)
    for k in ('deterministic', 'loop', 'reward_state'):
        v = flags.get(k)
        if v is None:
            v = ch.chance(.3)
        if v:
            kw[k] = True
    if kw.get('loop') and kw.get('reward_state'):
        del kw['reward_state']       # the two are alternatives
    if ch.chance(.2) and flags.get('structured') is not False:
        kw['structured'] = True
    if ch.chance(.3):
        kw['subtask_reward'] = ch.pick([5., 12.])
    ctx.event('collab', htm.show(spec), kw, acts)
    conv = t2p.HTMToPOMDP(**kw)
    model = conv.task_to_pomdp(ns.task.HierarchicalTask(root))
    rebuild(ctx, conv, ns.task.HierarchicalTask(root), model)
    return kw, spec, acts, model


def rebuild(ctx, conv, task, model):
    """Building a model uses up neither the task nor the converter."""
    if not ctx.ch.chance(.1):
        return
    ctx.probe('rebuilt')
    again = conv.task_to_pomdp(task)
    for k in ('states', 'actions', 'observations'):
        ctx.check(list(getattr(model, k)) == list(getattr(again, k)),
                  'rebuilt', lambda: 'a second model of the same task has {} '
                  '{} instead of {}'.format(k, getattr(again, k),
                                            getattr(model, k)))
    for k in ('T', 'O', 'R', 'start'):
        ctx.check(np.array_equal(getattr(model, k), getattr(again, k)),
                  'rebuilt', lambda: 'a second model of the same task has '
                  'another ' + k)


def random_bring(ctx, max_leaves=5, max_expanded=12, max_words=60):
    """Bring-next model: (converter options, spec, objects, model)."""
    ch = ctx.ch
    ns = loader.load()
    bn = ns.bring_next
    spec, n = htm.random_spec(ch, max_leaves=max_leaves, max_words=max_words,
                              max_expanded=max_expanded)
    n_obj = ch.between(1, max(1, n))
    objs = ['obj%d' % i for i in range(n_obj)]
    # distinct parts, or the same part needed several times
    part = [i % n_obj if ch.chance(.6) else ch.draw(n_obj) for i in range(n)]

    def make(i):
        return bn.CollaborativeAction('Step L%dx' % i, objs[part[i]])

    root = htm.build(ns, spec, make)
    extra = ['unused'] if ch.chance(.3) else []
    kw = {'t_com': ch.pick([1., 3.]), 't_get': ch.pick([5., 8.]),
          't_err': ch.pick([20., 12.]), 'objects': objs + extra,
          'end_reward': ch.pick([10., 50.]), 'loop': ch.chance(.6),
          'no_answer': ch.chance(.4)}
    if ch.chance(.4):
        kw['discount'] = ch.pick([.9, .5, 1.])
    ctx.event('bring', htm.show(spec), kw, part)
    conv = bn.HTMToPOMDP(**kw)
    model = conv.task_to_pomdp(ns.task.HierarchicalTask(root))
    rebuild(ctx, conv, ns.task.HierarchicalTask(root), model)
    return kw, spec, part, model
