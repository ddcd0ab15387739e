"""C08: planning effort and action choice follow the stated search rule."""
from checks import c07
from sim import loader, planning
from sim.core import InjectedFault

ID = 'C08'
RUNS = {'quick': 9000, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of foreground and background search; '
             'oracle is the search rule evaluated on a reference tree at '
             'every choice of every simulation')
RULE = ('random model, planner configuration (absolute or relative '
        'exploration, sharing, horizons), program of choices with explicit '
        'or default effort, steps, resets, pauses, model errors; every choice '
        'within every simulation is judged; non-trivial: at least two '
        'choices of the runner judged, one of them greedy')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP', 'task_models.supportive',
             'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time']}
ASSUMPTIONS = ['actions whose scores differ by less than 1e-7 are tied',
               'a choice that fails on a model error promises no effort']
PROBES = ('effort-judged', 'default-effort', 'explicit-effort',
          'greedy-return', 'untried-return', 'greedy-picks', 'untried-picks',
          'relative', 'no-effort')
FAULTS = ('model-error', 'stall', 'late-start')


def setup():
    loader.load()


def run(ctx):
    kind = ctx.ch.pick(['sync', 'sync', 'async', 'async', 'supportive'])
    if kind == 'async':
        with planning.random_kernel(ctx) as k:
            drive(ctx, c07.PlannerH(ctx, True), k)
    elif kind == 'supportive':
        drive(ctx, c07.SupportiveH(ctx), None)
    else:
        drive(ctx, c07.PlannerH(ctx, False), None)


def drive(ctx, p, k):
    ch = ctx.ch
    p.kind = 'transitions' if getattr(p, 'kind', '') == 'int' else \
        getattr(p, 'kind', 'transitions')
    p.check_selection = True
    p.build()
    p.rec.exclusive = False
    if p.relative:
        ctx.probe('relative')
    greedy = judged = 0
    faulty = ch.chance(.35)
    if faulty:
        p.rec.fault_in = ch.draw(ch.pick([400, 40, 8]))
    for _ in range(ch.between(2, 8)):
        what = ch.weighted([(5, 'get'), (3, 'step'), (1, 'reset'),
                            (1, 'idle')])
        if what == 'step' and p.last is None:
            what = 'get'
        if faulty and p.rec.fault_in is None and ch.chance(.3):
            p.rec.fault_in = ch.draw(60)
        if what == 'get':
            it = ch.pick([None, None, 1, 2, 7, 25, 0])
            if it == 0 and k is not None:
                it = 3
            n0 = len(p.rec.sims)
            node = p._node_for_history()
            op = p.ops + 1
            a = p.get_action(it)
            mine = [(i, s) for i, s in enumerate(p.rec.sims) if i >= n0 and
                    not isinstance(s, planning.Edges) and s.tid == 0]
            if a is None:
                continue
            want = p.iterations if it is None else it
            ctx.probe('default-effort' if it is None else 'explicit-effort')
            if len(mine) != want:
                p.fail('effort', 'choosing an action made {} simulations '
                       'instead of {} ({})'.format(
                           len(mine), want, 'default' if it is None
                           else 'requested'))
            ctx.probe('effort-judged')
            for _, s in mine:
                if s.node is not node:
                    p.fail('wrong-node', 'op {}: a simulation starts away '
                           'from the node of the history {}'.format(
                               op, p.history))
                if s.action is not None:
                    p.fail('forced', 'a simulation of the caller is '
                           'restricted to action {}'.format(s.action))
            # the reference up to the last of these simulations
            upto = mine[-1][0] + 1 if mine else len(p.rec.sims)
            sync_upto(p, upto)
            untried = p.ref.untried(node)
            ok = p.ref.best(node, 0, False)
            if a not in ok:
                p.fail('returned', 'action {} was returned where {} {} '
                       '(stats {})'.format(
                           a, ok, 'are untried' if untried
                           else 'have the greatest value',
                           p.ref._describe(node)))
            judged += 1
            if untried:
                ctx.probe('untried-return')
            else:
                ctx.probe('greedy-return')
                greedy += 1
            if want == 0:
                ctx.probe('no-effort')
        elif what == 'step':
            p.step(ch.draw(p.n_obs))
        elif what == 'reset':
            p.reset()
        elif k is not None:
            k.idle(ch.pick([.015, .2]))
    if k is not None:
        p.runner.execute(p.sync_ref)
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
    else:
        p.sync_ref()
    ctx.probe('greedy-picks', p.ref.greedy_picks)
    ctx.probe('untried-picks', p.ref.untried_picks)
    ctx.nontrivial = judged >= 2 and greedy >= 1
    ctx.sample = {'ops': p.ops, 'judged': judged, 'iterations': p.iterations,
                  'relative': p.relative, 'exploration': p.exploration}
    _keep.append(p.runner)


_keep = []


def sync_upto(p, n):
    while p._applied < n:
        s = p.rec.sims[p._applied]
        p._applied += 1
        if isinstance(s, planning.Edges):
            p._add_edges(s.history)
        else:
            p.ref.apply(s)
