"""C01: background explorations and caller operations never interleave."""
from sim import loader, planning, threads
from sim.core import InjectedFault

ID = 'C01'
RUNS = {'quick': 7500, 'thorough': 60000}
RULE = ('random model, planner configuration, caller program (get_action, '
        'step, reset, exclusive snapshots, an optional second observing '
        'thread), schedule (points at every lock operation, model call, '
        'source line or instruction) and model errors; non-trivial: at least '
        'one background simulation and one context switch inside the run')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time', 'pomdp-solve']}
ASSUMPTIONS = ['preemption happens at source-line or byte-code boundaries of '
               'the repository code, and at model calls, locks and sleeps',
               'numpy operations are atomic']
PROBES = ('context-switches', 'background-simulations', 'snapshots',
          'observer-snapshots', 'explorer-died')
FAULTS = ('model-error', 'stall', 'late-start')


class Boom(Exception):
    pass


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    with planning.random_kernel(ctx) as k:
        p = planning.PlannerRun(ctx, True)
        runner = p.build()
        faulty = ch.chance(.25)

        def snapshot(tag):
            k_sims = len(p.rec.sims)
            if p.rec.running:
                p.fail('interleaved', 'exclusive function runs while a '
                       'simulation is in progress')
            for _ in range(3):
                k.point('exclusive')
            p.sync_ref()
            p.ref.compare('({})'.format(tag))
            for _ in range(3):
                k.point('exclusive')
            if p.rec.running or len(p.rec.sims) != k_sims:
                p.fail('interleaved', 'a simulation ran during an exclusive '
                       'function')
            ctx.probe('snapshots')
            return ('result', tag)

        def exclusive(tag):
            r = runner.execute(snapshot, tag)
            if r != ('result', tag):
                p.fail('execute-result', 'exclusive execution returned {!r} '
                       'instead of the result of the function'.format(r))

        observer = None
        stop_observer = []
        if ch.chance(.3):
            n_obs = ch.between(1, 4)
            pauses = [ch.pick([.001, .02, .3]) for _ in range(n_obs)]

            def observe():
                for i, d in enumerate(pauses):
                    threads.sim_time.sleep(d)
                    if stop_observer:
                        return
                    exclusive('observer {}'.format(i))
                    ctx.probe('observer-snapshots')

            observer = threads.sim_threading.Thread(target=observe)
            observer.start()

        if faulty:
            p.rec.fault_in = ch.draw(300)
            p.rec.fault_thread = 1 if ch.chance(.7) else None
        for _ in range(ch.between(2, 8)):
            n0 = len(p.rec.sims)
            what = ch.weighted([(4, 'get'), (4, 'step'), (2, 'idle'),
                                (1, 'reset'), (2, 'snap'), (1, 'boom')])
            if what == 'step' and p.last is None:
                what = 'get'
            if what == 'get':
                it = ch.pick([None, None, 1, 2, 5])
                a = p.get_action(it)
                if a is not None:
                    check_contiguous(p, n0)
            elif what == 'step':
                o = ch.draw(p.n_obs)
                p.step(o)
            elif what == 'idle':
                k.idle(ch.pick([.005, .05, .2, 1.]))
            elif what == 'reset':
                p.reset()
            elif what == 'snap':
                exclusive('op {}'.format(p.ops))
            else:
                def boom():
                    raise Boom
                try:
                    runner.execute(boom)
                except Boom:
                    pass
                else:
                    p.fail('execute-result', 'the exception of an exclusive '
                           'function was lost')
        exclusive('end')
        stop_observer.append(1)
        if observer is not None:
            observer.join()
        unexpected = [e for t, e in k.unhandled
                      if not isinstance(e, InjectedFault)]
        if unexpected:
            p.fail('thread-died', 'a thread died of {!r}'.format(
                unexpected[0]))
        if k.unhandled:
            ctx.probe('explorer-died')
        bg = sum(1 for s in p.sims() if s.tid == 1)
        ctx.probe('background-simulations', bg)
        ctx.nontrivial = bg > 0 and k.switches > 0
        ctx.sample = {'ops': p.ops, 'background': bg,
                      'caller_simulations': len(p.sims()) - bg,
                      'switches': k.switches}
        p.rec.exclusive = False
        threads.KERNEL = k
        # leave without stopping: stopping is C03's subject
        p.runner = None
        k.ctx.event('done')
        _keep.append(runner)


_keep = []


def check_contiguous(p, since):
    """The simulations made by the caller inside one get_action are not
    interrupted by others."""
    mine = [i for i, s in enumerate(p.rec.sims) if i >= since and
            not isinstance(s, planning.Edges) and s.tid == 0]
    if mine:
        for i in range(mine[0], mine[-1] + 1):
            s = p.rec.sims[i]
            if isinstance(s, planning.Edges) or s.tid != 0:
                p.fail('interleaved', 'a background simulation completed '
                       'between the simulations of one get_action')
