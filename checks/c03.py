"""C03: the background explorer can always be stopped, nobody deadlocks."""
import gc

from sim import loader, planning, threads
from sim.core import InjectedFault, Violation

ID = 'C03'
RUNS = {'quick': 7500, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of threads, locks and time with '
             'explorer crashes and stalls; deadlock detection and bounded '
             'progress')
RULE = ('random model and planner, caller program, schedule, stalls and '
        'errors of the model inside explorations; then a way of ending drawn '
        'from: stop, stop twice, two threads stopping at once, stop in '
        'another thread while the caller plans, dropping the last reference; '
        'non-trivial: the explorer was running or dead of an error when the '
        'planner was ended')
COMPONENTS = {
    'real': ['task_models.lib.pomcp', 'task_models.lib.belief',
             'task_models.lib.pomdp.POMDP', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time', 'pomdp-solve']}
ASSUMPTIONS = ['the scheduler never starves a runnable thread forever',
               'bounded means at most 60 explorations during one caller '
               'operation and a million scheduling points for it']
PROBES = ('stopped-mid-exploration', 'stopped-dead-explorer',
          'stopped-sleeping-explorer', 'stop-twice', 'stop-concurrent',
          'stop-while-planning', 'dropped', 'op-after-stop')
FAULTS = ('model-error', 'model-stall', 'stall', 'late-start')

BOUND = 60


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    with planning.random_kernel(ctx) as k:
        p = planning.PlannerRun(ctx, True, max_h=3)
        k.stall_main = False
        rec = p.rec
        if ch.chance(.4):
            rec.fault_in = ch.draw(150)
            rec.fault_thread = 1
        if ch.chance(.3):
            left = [ch.draw(200)]
            orig_before = rec.before_call

            def before_call(what):
                orig_before(what)
                left[0] -= 1
                if left[0] == 0 and rec.tid() == 1:
                    ctx.fault('model-stall')
                    k.sleep(ch.pick([1., 30.]))

            rec.before_call = before_call
        p.build()
        started = [0]
        orig = rec.on_sim_start

        def on_start(sim):
            orig(sim)
            if sim.tid == 1:
                started[0] += 1

        rec.on_sim_start = on_start
        rec.exclusive = False

        def bounded(name, f, *args):
            n0 = started[0]
            k.renew()
            r = f(*args)
            if started[0] - n0 > BOUND:
                p.fail('starved', '{} waited for {} explorations'.format(
                    name, started[0] - n0))
            return r

        def some_ops(n):
            for _ in range(n):
                what = ch.weighted([(3, 'get'), (3, 'step'), (2, 'idle'),
                                    (1, 'reset'), (1, 'exec')])
                if what == 'step' and p.last is None:
                    what = 'get'
                if what == 'get':
                    bounded(what, p.get_action, ch.pick([None, 1, 3]))
                elif what == 'step':
                    bounded(what, p.step, ch.draw(p.n_obs))
                elif what == 'idle':
                    k.idle(ch.pick([.004, .02, .1, 1.]))
                elif what == 'reset':
                    bounded(what, p.reset)
                else:
                    bounded(what, p.runner.execute, lambda: None)

        some_ops(ch.between(0, 5))
        # how is the explorer when the end comes?
        if not k.alive(1):
            ctx.probe('stopped-dead-explorer')
        elif 1 in rec.running:
            ctx.probe('stopped-mid-exploration')
        else:
            ctx.probe('stopped-sleeping-explorer')
        ctx.nontrivial = True
        end = ch.pick(['stop', 'twice', 'concurrent', 'planning', 'drop'])
        ctx.event('end by', end)
        n_unraisable = len(loader.unraisable)

        def stop(runner):
            try:
                runner.stop()
            except Exception as e:
                p.fail('stop-raised', 'stop raised {!r} ({})'.format(e, end))

        if end == 'drop':
            ctx.probe('dropped')

            def drop():
                p.runner = None
                gc.collect()    # rejected steps leave reference cycles
            bounded('dropping the planner', drop)
            if len(loader.unraisable) > n_unraisable:
                p.fail('drop-raised', 'finalising the planner raised {!r}'
                       .format(loader.unraisable[-1]))
        elif end in ('stop', 'twice'):
            bounded('stop', stop, p.runner)
            if end == 'twice':
                ctx.probe('stop-twice')
                if ch.chance(.5):
                    k.idle(.05)
                stop(p.runner)
        elif end == 'concurrent':
            ctx.probe('stop-concurrent')
            t = threads.sim_threading.Thread(target=stop, args=(p.runner,))
            t.start()
            stop(p.runner)
            t.join()
        else:
            ctx.probe('stop-while-planning')
            t = threads.sim_threading.Thread(target=stop, args=(p.runner,))
            t.start()
            p.get_action(ch.pick([1, 4]))
            t.join()
        # ended, and nothing starts any more
        if k.alive(1):
            p.fail('not-stopped', 'the explorer thread is still alive after '
                   '{} returned'.format(end))
        n0 = started[0]
        k.idle(1.)
        if p.runner is not None:
            try:
                if ch.chance(.5):
                    ctx.probe('op-after-stop')
                    some_ops(ch.between(1, 3))
                    stop(p.runner)
            finally:
                runner, p.runner = p.runner, None
                n_unraisable = len(loader.unraisable)
                del runner
            if len(loader.unraisable) > n_unraisable:
                p.fail('drop-raised', 'finalising a stopped planner raised '
                       '{!r}'.format(loader.unraisable[-1]))
        if started[0] != n0:
            p.fail('not-stopped', '{} explorations started after {}'.format(
                started[0] - n0, end))
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'a thread died of {!r}'.format(bad[0]))
        ctx.sample = {'end': end, 'ops': p.ops, 'explorations': started[0]}
