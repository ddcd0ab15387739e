"""C15: the solver is given the same model that the program holds."""
import tempfile

import numpy as np

from sim import loader, models, pomdpfile, popen, solver, taskmodels

ID = 'C15'
RUNS = {'quick': 1500, 'thorough': 40000}
TECHNIQUE = ('deterministic simulation of the solver process at the other '
             'side of the model file; oracle is an independent reader of the '
             'file format compared with the in-memory model and with its '
             'construction')
RULE = ('random models given as rewards or costs, models built from random '
        'human-robot and bring-next tasks, fixed models of the package, '
        'histories of randomisations, reloads and solves (some failing); '
        'non-trivial: the solver read a model of at least two states')
COMPONENTS = {
    'real': ['task_models.lib.pomdp', 'task_models.task_to_pomdp',
             'task_models.bring_next_to_pomdp',
             'task_models.hold_and_release', 'task_models.tower_problem'],
    'stub': ['pomdp-solve (independent parser)', 'Popen']}
ASSUMPTIONS = ['five decimals are printed; a row is normalised within 1.5e-5',
               'state, action and observation names are identifiers of the '
               'format']
PROBES = ('read', 'cost', 'reward', 'task', 'bring', 'fixed', 'randomised',
          'reloaded', 'twice', 'many-digits', 'wide')
FAULTS = ('solver-exit-status', 'solver-killed')


def setup():
    loader.load()


def fixed(ctx, ns):
    ch = ctx.ch
    kind = ch.pick(['hold', 'tower', 'stool'])
    if kind == 'hold':
        c = [ch.pick([1., 2., 5.]) for _ in range(3)]
        p = ch.pick([.2, 0., 1.])
        return ns.hold_and_release.hold_and_release_pomdp(*c, proba_finish=p)
    if kind == 'tower':
        t = ns.tower_problem.TowerProblem(2, 2)
        return ns.bring_next.HTMToPOMDP(
            1., 5., 20., t.parts, loop=ch.chance(.5)).task_to_pomdp(
                t.vertical_horizontal_task())
    st = ns.stool_scenarios
    h2p = ns.task_to_pomdp.HTMToPOMDP(st.T_WAIT, st.T_ASK, st.T_TELL,
                                      st.C_INTR, end_reward=ch.pick([.1, 9.]))
    return h2p.task_to_pomdp(st.stool_task_sequential)


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    tempfile.tempdir = root
    try:
        scenario(ctx, ch, ns)
    finally:
        tempfile.tempdir = None
        import shutil
        shutil.rmtree(root, ignore_errors=True)


def scenario(ctx, ch, ns):
    kind = ch.pick(['plain', 'task', 'bring', 'fixed'])
    meant = None
    if kind == 'plain':
        size = ch.pick([(3, 3, 3), (6, 3, 5), (24, 1, 3), (4, 2, 24)])
        m, (T, O, R, start, discount) = models.random_pomdp(
            ctx, max_s=size[0], max_a=size[1], max_o=size[2])
        if max(size) > 20:
            ctx.probe('wide')
        meant = {'T': T.copy(), 'O': O.copy(), 'R': R.copy(),
                 'start': start.copy(), 'discount': discount}
    else:
        if kind == 'task':
            m = taskmodels.random_collab(ctx, max_leaves=3,
                                         max_expanded=6)[-1]
        elif kind == 'bring':
            m = taskmodels.random_bring(ctx, max_leaves=4)[-1]
        else:
            m = fixed(ctx, ns)
        ctx.probe(kind)
        meant = {'T': m.T.copy(), 'O': m.O.copy(), 'R': m.R.copy(),
                 'start': np.array(m.start, float), 'discount': m.discount}
    names = (list(m.states), list(m.actions), list(m.observations))
    sv = solver.Solver(ctx, tuple(len(x) for x in names))
    read = []
    sv.on_model = lambda text: judge(ctx, m, meant, names, text, read)
    with popen.Programs(ctx, pomdp_solve=sv):
        for i in range(ch.between(1, 4)):
            what = ch.weighted([(3, 'solve'), (2, 'randomise'),
                                (1, 'reload'), (1, 'use')])
            ctx.event(what)
            if what == 'randomise':
                p = ch.pick([1e-3, 1e-5, .1, 1e-7])
                m.randomize(p)
                for k in 'TO':
                    x = meant[k] + p
                    meant[k] = x / x.sum(-1)[..., None]
                ctx.probe('randomised')
            elif what == 'reload':
                m = ns.pomdp.POMDP.from_json(m.as_json())
                ctx.probe('reloaded')
            elif what == 'use':
                m.sample_transition(ch.draw(len(names[1])), m.sample_start())
                m.dump()
            else:
                solve(ctx, ch, m, sv)
        solve(ctx, ch, m, sv)
    if len(read) > 1:
        ctx.probe('twice')
    ctx.sim_time += 3. * len(read)
    ctx.nontrivial = bool(read) and len(names[0]) > 1
    ctx.sample = {'kind': kind, 'shape': sv.shape, 'solves': len(read)}


def solve(ctx, ch, m, sv):
    sv.ending = None
    if ch.chance(.2):
        sv.ending = ch.pick(['exit-status', 'killed'])
    n = sv.called
    try:
        m.solve(**({'method': 'grid'} if ch.chance(.3) else {}))
    except Exception as e:
        ctx.event('solve raised', type(e).__name__)
    ctx.check(sv.called > n and sv.model_text is not None, 'not-given',
              'the solver was given no model')


def judge(ctx, m, meant, names, text, read):
    read.append(len(text))
    ctx.probe('read')
    try:
        d = pomdpfile.parse(text)
    except pomdpfile.FormatError as e:
        lines = text.split('\n')
        ctx.violate('unreadable', 'the solver cannot read the model: {}\n{}'
                    .format(e, '\n'.join(lines[:12])))
    want = tuple([str(x) for x in l] for l in names)
    for k, w in zip(('states', 'actions', 'observations'), want):
        ctx.check(d[k] == w, 'names', lambda: '{} {} are given as {}'.format(
            k, w, d[k]))
    ctx.check(abs(d['discount'] - meant['discount']) < 1e-6, 'discount',
              lambda: 'discount {} is given as {}'.format(
                  meant['discount'], d['discount']))
    for k in ('start', 'T', 'O', 'R'):
        w = meant[k]
        tol = 1.01e-5 * (w.shape[-1] + 1) + 1e-9 * np.abs(w).max()
        diff = np.abs(d[k] - w)
        if diff.size and diff.max() > tol:
            i = np.unravel_index(diff.argmax(), diff.shape)
            ctx.violate('different-' + k, '{} at {} is {} and is given to '
                        'the solver as {}'.format(
                            k, describe(names, k, i), w[i], d[k][i]))
        held = np.asarray(getattr(m, k), float)
        ctx.check(np.allclose(held, w, atol=1e-9), 'held-' + k, lambda: 'the '
                  'program holds another {} than was built: off by {}'.format(
                      k, np.abs(held - w).max()))
    if (meant['R'] < 0).any() or (meant['R'] > 0).any():
        ctx.probe('reward' if meant['R'].sum() > 0 else 'cost')
    if (np.abs(meant['T'] * 1e5 - np.round(meant['T'] * 1e5)) > .01).any():
        ctx.probe('many-digits')


def describe(names, k, i):
    S, A, Z = names
    kinds = {'start': (S,), 'T': (A, S, S), 'O': (A, S, Z),
             'R': (A, S, S, Z)}[k]
    return tuple(n[j] for n, j in zip(kinds, i))
