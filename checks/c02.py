"""C02: background exploration follows the caller's position and commitment."""
from sim import loader, planning, threads
from sim.core import InjectedFault

ID = 'C02'
RUNS = {'quick': 7500, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of threads, locks and time; oracle on '
             'the start node and first action of every background simulation')
RULE = ('random model and planner, caller program of get_action, accepted and '
        'rejected steps, resets and pauses, random schedule; non-trivial: at '
        'least one background simulation judged after a step and one after a '
        'chosen action')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time', 'pomdp-solve']}
ASSUMPTIONS = ['simulations start through the tree\'s simulate_from_node',
               'a simulation that starts while a caller operation is in '
               'progress may belong to the position before or after it']
PROBES = ('judged-free', 'judged-committed', 'judged-after-reset',
          'judged-after-rejected-step', 'judged-second-choice', 'goes-on',
          'explorer-died')
FAULTS = ('model-error', 'stall', 'impossible-observation')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    with planning.random_kernel(ctx) as k:
        p = planning.PlannerRun(ctx, True, check_selection=True)
        runner = p.build()
        p.expect_node = runner.tree.root
        p.expect_action = None
        p.op_done = True
        state = {'tag': 'free', 'n': {}, 'begun': 0}
        faulty = ch.chance(.2)

        orig = p.rec.on_sim_start

        def on_start(sim):
            orig(sim)
            sim.tag = state['tag']
            state['begun'] += sim.tid == 1
            if sim.tid == 1 and sim.stable and sim.expect[0] is not None:
                node, action = sim.expect
                if sim.node is not node:
                    p.fail('wrong-node', 'after op {} returned, a background '
                           'simulation starts at another node than that of '
                           'the history {}'.format(sim.op, p.history))
                if action is None and sim.action is not None:
                    p.fail('stale-commitment', 'after op {} returned, a '
                           'background simulation is restricted to action {}'
                           .format(sim.op, sim.action))
                if action is not None and sim.action is not None and \
                        sim.action != action:
                    p.fail('wrong-action', 'after action {} was returned, a '
                           'background simulation tries {}'.format(
                               action, sim.action))

        p.rec.on_sim_start = on_start

        def on_end(sim):
            if sim.tid == 1 and sim.stable and sim.expect[0] is not None \
                    and sim.steps:
                action = sim.expect[1]
                if action is not None and sim.steps[0][0] != action:
                    p.fail('wrong-action', 'after action {} was returned, a '
                           'background simulation first takes {}'.format(
                               action, sim.steps[0][0]))
                ctx.probe('judged-' + sim.tag)
                ctx.probe('judged-committed' if action is not None
                          else 'judged-free')
                state['n'][action is None] = True

        p.rec.on_sim_end = on_end
        if faulty:
            p.rec.fault_in = ch.draw(300)
            p.rec.fault_thread = ch.pick([0, 1])
        for _ in range(ch.between(3, 9)):
            what = ch.weighted([(4, 'get'), (4, 'step'), (3, 'idle'),
                                (1, 'reset'), (2, 'bad')])
            if what in ('step', 'bad') and p.last is None:
                what = 'get'
            if what == 'get':
                second = p.last is not None
                p.get_action(ch.pick([None, 1, 3]))
                state['tag'] = 'second-choice' if second else 'choice'
            elif what == 'step':
                r = p.step(ch.draw(p.n_obs))
                state['tag'] = 'step' if r is True else 'rejected-step'
                if r is not True:
                    ctx.fault('impossible-observation')
            elif what == 'bad':
                p.step(ch.pick(['nonsense', None]))
                state['tag'] = 'after-rejected-step'
            elif what == 'reset':
                p.reset()
                state['tag'] = 'after-reset'
            else:
                k.idle(ch.pick([.015, .05, .3]))
                if ch.chance(.3):
                    goes_on(p, k, state)
        goes_on(p, k, state)
        runner.execute(p.sync_ref)    # free choices follow the search rule
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
        ctx.nontrivial = len(state['n']) == 2
        ctx.sample = {'ops': p.ops, 'history': p.history,
                      'simulations': len(p.sims()), 'switches': k.switches}
        _keep.append(runner)


def goes_on(p, k, state):
    """Left alone and without further faults, exploration goes on."""
    stall, k.stall = k.stall, 0.
    fault, p.rec.fault_in = p.rec.fault_in, None
    before, waited = state['begun'], 0
    while state['begun'] == before and not k.unhandled:
        if waited > 200:
            p.fail('no-exploration', 'no background simulation starts within '
                   '{:g} s after op {}'.format(waited * .5, p.ops))
        k.idle(.5)
        waited += 1
    p.ctx.probe('explorer-died' if k.unhandled else 'goes-on')
    k.stall, p.rec.fault_in = stall, fault


_keep = []
