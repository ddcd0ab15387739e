"""C32: the hold-and-release model."""
import math

import numpy as np

from sim import loader

ID = 'C32'
RUNS = {'quick': 12000, 'thorough': 200000}
TECHNIQUE = ('deterministic simulation of closed-loop executions with a '
             'simulated human and adversarial, impatient and absent robots; '
             'oracle is an independent automaton')
RULE = ('random costs and speed of the human (including one that never '
        'finishes and one that finishes at once), several models used in '
        'turn, executions by random, patient and impatient robots, past the '
        'end; every transition, observation and reward is judged; '
        'non-trivial: an execution that ended')
COMPONENTS = {'real': ['task_models.hold_and_release',
                       'task_models.lib.pomdp'],
              'stub': ['the human (random outcomes of the model, seeded)',
                       'the robot']}
ASSUMPTIONS = ['the human may finish during any action of the robot']
PROBES = ('released', 'too-early', 'too-early-finished', 'heard-doing',
          'heard-done', 'waited', 'past-the-end', 'never-finishes',
          'finishes-at-once', 'patient', 'impatient', 'random')
FAULTS = ('stalled-human', 'absent-robot')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    worlds = []
    for _ in range(ch.between(1, 3)):
        cw, cf, cc = [ch.pick([0., 1., 2.5, 10., 100.]) for _ in range(3)]
        p = ch.pick([None, .2, .5, .05, .9, 0., 1.])
        args = (cw, cf, cc) if p is None else (cw, cf, cc, p)
        m = ns.hold_and_release.hold_and_release_pomdp(*args)
        p = .2 if p is None else p
        if p == 0.:
            ctx.probe('never-finishes')
            ctx.fault('stalled-human')
        if p == 1.:
            ctx.probe('finishes-at-once')
        worlds.append(World(ctx, m, cw, cf, cc, p))
    for _ in range(ch.between(1, 4)):
        w = ch.pick(worlds)
        w.episode()
    ctx.nontrivial = any(w.ended for w in worlds)
    ctx.sample = {'models': len(worlds), 'steps': sum(w.n for w in worlds),
                  'ended': sum(w.ended for w in worlds)}


class World:

    def __init__(self, ctx, m, cw, cf, cc, p):
        self.ctx, self.m, self.p = ctx, m, p
        self.cost = {'wait': cw, 'communicate': cc}
        self.cf = cf
        self.n = self.ended = 0
        self.tries = self.finished = 0
        for what, want in (('actions', ['communicate', 'physical', 'wait']),
                           ('observations', ['doing', 'done', 'nothing']),
                           ('states', ['final', 'one', 'zero'])):
            got = sorted(getattr(m, what))
            ctx.check(got == want, 'names', lambda: '{} {}'.format(what, got))
        ctx.check(m.discount == 1, 'discount', lambda: 'discount {}'.format(
            m.discount))

    def episode(self):
        ctx, ch, m = self.ctx, self.ctx.ch, self.m
        how = ch.pick(['random', 'patient', 'impatient', 'absent'])
        s = m.states[int(m.sample_start())]
        ctx.check(s == 'zero', 'start', lambda: 'starts in ' + s)
        ctx.event('episode', how)
        if how == 'absent':
            ctx.fault('absent-robot')
        else:
            ctx.probe(how)
        past = ch.between(0, 3)
        heard = None
        for _ in range(ch.pick([60, 25, 5])):
            if how == 'random':
                a = ch.pick(['wait', 'physical', 'communicate'])
            elif how == 'patient':
                a = 'physical' if heard == 'done' else 'communicate'
            elif how == 'impatient':
                a = 'physical'
            else:
                a = 'wait'
            if s == 'final':
                if past == 0:
                    break
                past -= 1
                ctx.probe('past-the-end')
                a = ch.pick(['wait', 'physical', 'communicate'])
            s2, o, r = m.sample_transition(m.actions.index(a),
                                           m.states.index(s))
            s2, o = m.states[int(s2)], m.observations[int(o)]
            self.judge(a, s, s2, o, float(r))
            heard = o
            if s2 == 'final' and s != 'final':
                self.ended += 1
            s = s2
            self.n += 1
            ctx.sim_time += 1.
        if how == 'patient' and self.p == 1.:
            ctx.check(s == 'final', 'no-end', 'a patient robot never ends')

    def judge(self, a, s, s2, o, r):
        ctx, m = self.ctx, self.m
        ctx.event(a, s, s2, o, r)
        row = np.asarray(m.T)[m.actions.index(a), m.states.index(s)]
        at = {x: row[m.states.index(x)] for x in m.states}
        if s == 'zero':
            want = {'zero': 1. - self.p, 'one': self.p, 'final': 0.}
            if a == 'physical':
                ctx.probe('too-early' if s2 == 'zero' else
                          'too-early-finished')
        elif s == 'one':
            want = {'zero': 0., 'one': 1., 'final': 0.}
            if a == 'physical':
                want = {'zero': 0., 'one': 0., 'final': 1.}
                ctx.probe('released')
        else:
            want = {'zero': 0., 'one': 0., 'final': 1.}
        ctx.check(all(abs(at[x] - want[x]) < 1e-9 for x in want), 'transition',
                  lambda: '{} in {} leads to {} instead of {}'.format(
                      a, s, at, want))
        ctx.check(want[s2] > 0, 'transition', lambda: '{} in {} led to {}'
                  .format(a, s, s2))
        ok = 'nothing' if a == 'wait' else {
            'zero': 'doing', 'one': 'done', 'final': 'nothing'}[s2]
        if a == 'wait':
            ctx.probe('waited')
        elif s2 != 'final':
            ctx.probe('heard-' + ok)
        ctx.check(o == ok, 'observation', lambda: '{} leading to {} is '
                  'observed as {}'.format(a, s2, o))
        if a == 'physical':
            c = self.cf if s == 'zero' else 0.
        else:
            c = self.cost[a]
        ctx.check(math.isclose(r, -c, abs_tol=1e-9), 'reward', lambda: '{} in '
                  '{} leading to {} is rewarded {} instead of {}'.format(
                      a, s, s2, r, -c))
