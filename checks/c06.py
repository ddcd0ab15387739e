"""C06: particle beliefs are complete, consistent, built with bounded work."""
import numpy as np

from sim import loader, planner, planning
from sim.core import InjectedFault

ID = 'C06'
RUNS = {'quick': 9000, 'thorough': 80000}
TECHNIQUE = ('deterministic simulation of particle filtering inside direct '
             'updates, synchronous and background search, with rare '
             'observations and model errors; oracle over the log of '
             'simulator calls')
RULE = ('random model with rare observations; either a chain of belief '
        'updates, each judged against the simulator calls it made, or a '
        'closed-loop planner run whose whole tree is judged against the log '
        'of calls; model errors at random calls; non-trivial: some update '
        'duplicated particles or found none')
COMPONENTS = {
    'real': ['task_models.lib.belief', 'task_models.lib.pomcp',
             'task_models.lib.pomdp.POMDP', 'stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time']}
ASSUMPTIONS = ['bounded means at most 150 simulator calls per particle and '
               'update']
PROBES = ('updates', 'duplicated', 'none-found', 'node-beliefs',
          'branch-skipped', 'aborted-update')
FAULTS = ('model-error', 'unreachable-observation', 'seldom-observation',
          'stall')

BOUND = 150


def setup():
    loader.load()


def run(ctx):
    what = ctx.ch.pick(['direct', 'tree', 'async'])
    if what == 'direct':
        direct(ctx)
    elif what == 'tree':
        tree(ctx, None)
    else:
        with planning.random_kernel(ctx) as k:
            tree(ctx, k)


def log_calls(model, rec, log, starts):
    """Logs what the simulator really produced."""
    orig, orig_start = model.sample_transition, model.sample_start

    def sample_transition(a, s):
        out = orig(a, s)
        log.append((int(a), int(s), int(out[0]), int(out[1])))
        return out

    def sample_start():
        s = orig_start()
        starts.append(int(s))
        return s

    model.sample_transition = sample_transition
    model.sample_start = sample_start


def direct(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    arrays = planner.random_arrays(ch, rare=True, max_s=5)
    rec = planner.Recorder(ctx)
    model = planner.recording_model(ns, rec, arrays)
    log, starts = [], []
    log_calls(model, rec, log, starts)
    n = ch.pick([1, 2, 3, 5, 12])
    n_a, n_s, n_o = arrays[1].shape
    b = ns.belief.ParticleBelief(model.sample_start, n_s, n_particles=n)
    ctx.event('direct', n_s, n_a, n_o, 'particles', n)
    complete(ctx, b, n, 'initial belief')
    ctx.check(sorted(particles(b)) == sorted(starts), 'not-sampled',
              lambda: 'the initial particles {} are not the sampled starts {}'
              .format(particles(b), starts))
    ctx.check(len(starts) == n, 'unbounded', 'the initial belief was sampled '
              '{} times for {} particles'.format(len(starts), n))
    for i in range(ch.between(1, 6)):
        a, o = ch.draw(n_a), ch.draw(n_o)
        before = list(particles(b))
        if ch.chance(.5):
            # an observation that is possible but seldom seen
            few = [(x, y) for x in range(n_a) for y in range(n_o)
                   if 0 < np.mean(arrays[0][x][before].dot(
                       arrays[1][x][:, y])) < .03]
            if few:
                a, o = ch.pick(few)
                ctx.fault('seldom-observation')
        del log[:]
        if ch.chance(.15):
            rec.fault_in = ch.draw(40)
        try:
            nb = b.successor(model, a, o)
        except ns.belief.MaxSamplesReached as e:
            nb = None
            ctx.probe('none-found')
            ctx.nontrivial = True
            ctx.fault('unreachable-observation')
            str(e)
            hits = [x for x in log if x[3] == o]
            ctx.check(not hits, 'gave-up', lambda: 'reports that nothing '
                      'could be sampled although {} was'.format(hits[:3]))
            ctx.check(len(log) > 0, 'gave-up', 'reports that nothing could be '
                      'sampled without trying')
        except InjectedFault:
            nb = None
            ctx.probe('aborted-update')
        rec.fault_in = None
        ctx.probe('updates')
        ctx.event('update', a, o, 'calls', len(log), nb and particles(nb))
        ctx.check(list(particles(b)) == before, 'parent-changed', lambda:
                  'an update changed the belief it started from')
        ctx.check(len(log) <= BOUND * n, 'unbounded', lambda: '{} simulator '
                  'calls for an update of {} particles'.format(len(log), n))
        for (a2, s, s2, o2) in log:
            ctx.check(a2 == a and s in before, 'wrong-call', lambda: 'an '
                      'update for action {} of particles {} simulates action '
                      '{} in state {}'.format(a, before, a2, s))
        if nb is None:
            continue
        complete(ctx, nb, n, 'successor')
        hits = [s2 for (_, _, s2, o2) in log if o2 == o]
        bad = set(particles(nb)) - set(hits)
        ctx.check(not bad, 'not-sampled', lambda: 'particles {} were not '
                  'produced by the simulator with observation {} (it '
                  'produced {})'.format(sorted(bad), o, hits))
        if len(hits) < n:
            ctx.probe('duplicated')
            ctx.nontrivial = True
        else:
            ctx.check(sorted(hits) == sorted(particles(nb)), 'lost-particle',
                      lambda: 'the simulator produced {} and the belief holds '
                      '{}'.format(sorted(hits), sorted(particles(nb))))
        support = nb.array
        ctx.check(len(support) == n_s and
                  np.allclose(support, [particles(nb).count(s) / n
                                        for s in range(n_s)]),
                  'array', lambda: 'the belief array {} does not describe the '
                  'particles {}'.format(list(support), particles(nb)))
        for _ in range(3):
            s = nb.sample()
            ctx.check(s in particles(nb), 'sample', lambda: 'sampled {} from '
                      'particles {}'.format(s, particles(nb)))
        if ch.chance(.8):
            b = nb
    ctx.sample = {'mode': 'direct', 'particles': n}


def particles(b):
    """The states of the particles of a belief."""
    states = getattr(b, 'part_states', None)
    if states is None:   # from its public array
        a = np.asarray(b.array)
        states = [s for s in range(len(a))
                  for _ in range(int(round(a[s] * b.n_particles)))]
    return list(states)


def complete(ctx, b, n, what):
    ctx.check(len(particles(b)) == n, 'incomplete', lambda: 'the {} holds {} '
              'particles instead of {}'.format(what, len(particles(b)), n))


def tree(ctx, k):
    ch = ctx.ch
    p = planning.PlannerRun(ctx, k is not None, belief='particle', rare=True,
                            max_s=5, particles=ch.pick([None, 1, 2, 3]),
                            iterations=ch.pick([None, 12, 40]))
    log, starts = [], []
    log_calls(p.model, p.rec, log, starts)
    p.build()
    if ch.chance(.3):
        p.rec.fault_in = ch.draw(600)
    skipped = []

    def on_end(sim):
        if sim.status == 'done' and sim.steps:
            node = sim.node
            for (a, _, _, o, _) in sim.steps:
                anode = node.children[a]
                if anode is None or o not in anode.children:
                    skipped.append((a, o))
                    break
                node = anode.children[o]

    p.rec.on_sim_end = on_end
    for _ in range(ch.between(1, 6)):
        what = ch.weighted([(4, 'get'), (3, 'step'), (1, 'reset'),
                            (1, 'idle')])
        if what == 'step' and p.last is None:
            what = 'get'
        n0 = len(log)
        if what == 'get':
            it = ch.pick([None, 1, 4])
            p.get_action(it)
        elif what == 'step':
            # 'bounded': the update itself; all else is C07 and C08
            o = ch.draw(p.n_obs)
            before = list(p.runner.history)
            r = p.step(o)
            if r is not True:
                ctx.fault('unreachable-observation')
                ctx.nontrivial = True
                if list(p.runner.history) != before:
                    p.fail('history', 'history is {} after a failed step from '
                           '{}'.format(p.runner.history, before))
            if k is None and len(log) - n0 > BOUND * p.n_particles:
                p.fail('unbounded', 'a step made {} simulator calls for {} '
                       'particles'.format(len(log) - n0, p.n_particles))
        elif what == 'reset':
            p.reset()
        elif k is not None:
            k.idle(ch.pick([.015, .1]))
    if k is not None:
        p.runner.execute(walk, p, log, starts)
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
    else:
        walk(p, log, starts)
    if skipped:
        ctx.probe('branch-skipped', len(skipped))
        ctx.nontrivial = True
    ctx.sample = {'mode': 'async' if k else 'tree', 'history': p.history,
                  'particles': p.n_particles, 'skipped': len(skipped)}
    _keep.append(p.runner)


_keep = []


def walk(p, log, starts):
    made = {}
    for (a, s, s2, o) in log:
        made.setdefault((a, o, s2), set()).add(s)
    root = p.runner.tree.root
    if not set(particles(root.belief)) <= set(starts):
        p.fail('not-sampled', 'the initial particles {} are not sampled '
               'starts {}'.format(particles(root.belief), starts))
    stack = [(root, ())]
    n = 0
    while stack:
        node, path = stack.pop()
        n += 1
        complete(p.ctx, node.belief, p.n_particles,
                 'belief for history {}'.format(path))
        parents = set(particles(node.belief))
        for a, anode in enumerate(node.children):
            if anode is None:
                continue
            for o, child in anode.children.items():
                h = path + (a, o)
                for s2 in particles(child.belief):
                    if not made.get((a, o, s2), set()) & parents:
                        p.fail('not-sampled', 'the belief for history {} '
                               'holds particle {} which the simulator never '
                               'produced with action {} and observation {} '
                               'from any of {}'.format(h, s2, a, o,
                                                       sorted(parents)))
                stack.append((child, h))
    p.ctx.probe('node-beliefs', n)
