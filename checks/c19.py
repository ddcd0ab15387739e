"""C19: the scripted supportive policy drives the task to completion."""
import numpy as np

from sim import episodes, loader

ID = 'C19'
RUNS = {'quick': 15000, 'thorough': 300000}
TECHNIQUE = ('deterministic simulation of the scripted policy against the '
             'supportive model and against an adversarial plant; oracle is a '
             'reference automaton of the script, and completion within a '
             'bound once failures stop')
RULE = ('random number of subtasks, failure and change probabilities; '
        'sequences of failures, not-found answers, unexplained and unknown '
        'observations and resets at any point; closed loop with the real '
        'model until failures stop, then until the end; non-trivial: at '
        'least one subtask was completed')
COMPONENTS = {
    'real': ['task_models.policy', 'task_models.supportive'],
    'stub': ['the plant (adversarial mode)']}
ASSUMPTIONS = ['an unneeded hold is accepted with the model\'s own small '
               'probability: refused holds are not counted in the bound, up '
               'to 5000 in a row']
PROBES = ('adversarial', 'closed-loop', 'script-complete', 'task-complete',
          'reset', 'asked-twice', 'step-too-early', 'after-end',
          'second-episode')
FAULTS = ('fail', 'not-found', 'unexplained', 'unknown-observation',
          'failures-stopped')
TOOLS = ['screws', 'screwdriver', 'joints']


def setup():
    loader.load()


class Script:
    """Reference automaton."""

    def __init__(self, n):
        self.n = n
        self.reset()

    def reset(self):
        self.stages = (['bring ' + t for t in TOOLS] +
                       ['bring leg', 'hold H'] * self.n +
                       ['clear ' + t for t in TOOLS])
        self.i = 0
        self.history = []

    @property
    def action(self):
        return self.stages[self.i] if self.i < len(self.stages) else 'wait'

    @property
    def over(self):
        return self.i >= len(self.stages)

    @property
    def done(self):
        return sum(s == 'hold H' for s in self.stages[:self.i])

    def step(self, o):
        """Whether the observation can be explained."""
        if o == 'fail':
            return True
        if o == 'none' or o == 'not-found' and self.action != 'hold H':
            self.i += not self.over
            return True
        return False


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    model = episodes.make_model(ctx, episodes.Log(), stool=True,
                                max_leaves=5)
    n = len(model.leaf_specs)
    pol = ns.policy.PolicyLongSupportiveSequence(model)
    script = Script(n)
    best = 0
    for i in range(ch.between(1, 3)):
        if i:
            pol.reset()
            script.reset()
            ctx.event('reset')
            ctx.probe('second-episode')
        f = ch.pick([closed, adversarial])
        best = max(best, f(ctx, ns, model, pol, script))
    ctx.nontrivial = best >= 1
    ctx.sample = {'subtasks': n, 'done': best}


def recorded(ctx, pol, script, a, o, taken=True):
    """The history lists actions and observations since the last reset (an
    observation that is not explained may be left out)."""
    m = pol.model
    new = [m.actions.index(a), m.observations.index(o)]
    got = [int(x) for x in pol.history]
    if not taken and got == script.history:
        return
    script.history.extend(new)
    ctx.check(got == script.history, 'history', lambda: 'history {} after '
              '{}'.format(got, script.history))


def ask(ctx, pol, script):
    a = pol.get_action(**({'iterations': 3} if ctx.ch.chance(.1) else {}))
    ctx.check(a == script.action, 'action', lambda: 'the policy does {} '
              'instead of {} after stages {} of {} subtasks'.format(
                  a, script.action, script.stages[:script.i], script.n))
    if ctx.ch.chance(.05):
        ctx.probe('asked-twice')
        b = pol.get_action()
        ctx.check(a == b, 'action', lambda: 'asked again, the policy does {} '
                  'instead of {}'.format(b, a))
    return a


def adversarial(ctx, ns, model, pol, script):
    ch = ctx.ch
    ctx.probe('adversarial')
    unexpected = ns.policy.PolicyRunner.UnexpectedObservation
    if ch.chance(.1):
        ctx.probe('step-too-early')
        try:
            pol.step('none')
        except ValueError as e:
            ctx.event('early', type(e).__name__)
        except Exception as e:
            ctx.violate('early', 'an observation before any action is '
                        'reported as {!r}'.format(e))
        else:
            ctx.violate('early', 'an observation before any action is '
                        'accepted')
    bad = ch.pick([0, 1, 3])
    after = ch.between(0, 3)
    for _ in range(ch.pick([20, 60, 5])):
        a = ask(ctx, pol, script)
        o = ch.weighted([(8 - bad, 'none'), (1 + bad, 'fail'),
                         (1 + bad, 'not-found'), (bad, 'yes'), (bad, 'no'),
                         (bad, 'x')])
        ctx.event(a, o)
        ctx.sim_time += 1
        if o in ('fail', 'not-found'):
            ctx.fault(o)
        before = script.i
        try:
            pol.step(o)
        except Exception as e:
            if o == 'x':
                ctx.fault('unknown-observation')
                continue
            ctx.fault('unexplained')
            ctx.check(not script.step(o), 'rejected', lambda: 'observation {} '
                      'of {} raised {!r}'.format(o, a, e))
            ctx.check(isinstance(e, unexpected), 'report', lambda: 'the '
                      'unexplained {} of {} is reported as {!r}'.format(o, a,
                                                                        e))
            recorded(ctx, pol, script, a, o, taken=False)
            continue
        ctx.check(o != 'x' and script.step(o), 'accepted', lambda:
                  'observation {} of {} is accepted'.format(o, a))
        recorded(ctx, pol, script, a, o)
        if ch.chance(.02):
            ctx.probe('reset')
            ctx.event('reset')
            pol.reset()
            script.reset()
        if script.over:
            ctx.probe('script-complete')
            after -= 1
            if after < 0:
                break
            ctx.probe('after-end')
    return script.done


def closed(ctx, ns, model, pol, script):
    ch = ctx.ch
    ctx.probe('closed-loop')
    knobs = {k: getattr(model, k) for k in
             ('p_fail', 'p_changed_by_human', 'p_change_preference')}
    s = int(model.sample_start())
    ctx.event('start', s)
    calm = ch.pick([0, 10, 40, 200])
    steps = good = 0
    refused = 0
    while not model.is_final(s):
        if steps == calm:
            # random failures stop
            ctx.fault('failures-stopped')
            for k in knobs:
                setattr(model, k, 0.)
            good = 0
            left = len(script.stages) - script.i + 1
        a = ask(ctx, pol, script)
        s, o, r = model.sample_transition(model.actions.index(a), s)
        o = model.observations[int(o)]
        s = int(s)
        ctx.event(a, o)
        if o in ('fail', 'not-found'):
            ctx.fault(o)
        steps += 1
        good += o != 'fail'
        refused = refused + 1 if o == 'fail' else 0
        ctx.check(script.step(o), 'plant', lambda: 'observation {} of {}'
                  .format(o, a))
        try:
            pol.step(o)
        except Exception as e:
            ctx.violate('rejected', 'observation {} of {} raised {!r}'.format(
                o, a, e))
        recorded(ctx, pol, script, a, o)
        if steps > calm:
            ctx.check(good <= left, 'no-end', lambda: 'the task is not over '
                      'after {} more effective actions since failures stopped'
                      .format(good))
            ctx.check(a == 'hold H' or o != 'fail', 'no-end', lambda:
                      '{} fails though failures stopped'.format(a))
        ctx.check(refused < 5000, 'no-end', lambda: '{} was refused {} times '
                  'in a row'.format(a, refused))
    ctx.sim_time += steps
    ctx.probe('task-complete')
    ctx.check(script.over and a == 'wait', 'too-early', lambda: 'the task '
              'ended on {} after stages {}'.format(a,
                                                   script.stages[:script.i]))
    for _ in range(ch.between(0, 3)):
        ctx.probe('after-end')
        a = ask(ctx, pol, script)
        s, o, r = model.sample_transition(model.actions.index(a), s)
        pol.step(model.observations[int(o)])
        ctx.check(model.is_final(int(s)), 'left-end', lambda: '{} leaves the '
                  'final state'.format(a))
    for k, v in knobs.items():
        setattr(model, k, v)
    return script.done
