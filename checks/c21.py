"""C21: human-robot task models execute the task they were built from."""
import math

import numpy as np

from sim import htm, loader, taskmodels

ID = 'C21'
RUNS = {'quick': 10000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of closed-loop executions of the built '
             'models with robot failures, refusals and slow humans; oracle is '
             'an independent automaton of the task')
RULE = ('random task, durations, failure and refusal probabilities, costs and '
        'options (deterministic, loop, reward state, subtask reward), several '
        'models built in a row; executions by random and by purposeful '
        'actions, past the end; non-trivial: a complete ordering of two or '
        'more subtasks')
COMPONENTS = {
    'real': ['task_models.task_to_pomdp', 'task_models.task',
             'task_models.lib.pomdp'],
    'stub': ['the human and the robot (the model\'s own random outcomes, '
             'seeded)']}
ASSUMPTIONS = ['states are named by phase and subtask',
               'with the structured option, telling an intention at a wrong '
               'moment costs a penalty or the usual cost: the program leaves '
               'it to the order of the subtasks',
               'the loop and reward-state options exclude each other']
PROBES = ('complete', 'deterministic', 'loop', 'reward_state', 'plain',
          'subtask-reward', 'restarted', 'stays', 'end-reward-collected',
          'human-finished', 'robot-finished', 'purposeful', 'random-actions',
          'rebuilt', 'parallel', 'alternative', 'asked-finished', 'structured',
          'unequal-choice')
FAULTS = ('robot-failed', 'human-refused', 'wrong-moment', 'human-slow')
TOL = 1e-9
PENALTY = 100


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    best = 0
    for _ in range(ch.between(1, 3)):
        kw, spec, acts, m = taskmodels.random_collab(ctx, max_leaves=5,
                                                     max_expanded=16)
        best = max(best, Execution(ctx, kw, spec, acts, m).run())
    ctx.nontrivial = best >= 2
    ctx.sample = {'task': htm.show(spec), 'options': sorted(kw),
                  'done': best}


def first_leaf(spec):
    """{leaf: chance to come first}, all alternatives being as likely."""
    if spec[0] == 'leaf':
        return {spec[1]: 1.}
    kids = spec[1][:1] if spec[0] == 'seq' else spec[1]
    out = {}
    for c in kids:
        for i, q in first_leaf(c).items():
            out[i] = out.get(i, 0.) + q / len(kids)
    return out


class Execution:

    def __init__(self, ctx, kw, spec, acts, m):
        self.ctx, self.ch = ctx, ctx.ch
        self.kw, self.spec, self.acts, self.m = kw, spec, acts, m
        self.words = htm.words(spec)
        self.prefixes = htm.prefixes(self.words)
        self.pairs = {(a, b) for w in self.words
                      for a, b in zip(w, w[1:] + (None,))}
        self.states = list(m.states)
        self.actions = list(m.actions)
        self.obs = list(m.observations)
        self.mode = ('loop' if kw.get('loop') else 'reward_state'
                     if kw.get('reward_state') else 'plain')
        s = htm.show(spec)
        for k, p in (('par', 'parallel'), ('alt', 'alternative')):
            if k in s:
                ctx.probe(p)
        ctx.probe(self.mode)
        for k in ('deterministic', 'subtask_reward', 'structured'):
            if kw.get(k):
                ctx.probe(k.replace('_', '-'))
        self.parse()

    def parse(self):
        """Positions and phases from the names."""
        ctx = self.ctx
        self.pos = []             # (phase, copy) per state
        self.of = {}              # (phase, copy) -> state
        for i, n in enumerate(self.states):
            p = (n, None) if n in ('end', 'end-reward') else \
                tuple(n.split('-', 1))
            self.pos.append(p)
            self.of[p] = i
        self.copies = sorted({c for _, c in self.pos if c})
        for c in self.copies:
            for ph in ('init', 'H', 'R'):
                ctx.check((ph, c) in self.of, 'states', lambda: 'no state {} '
                          'of {}'.format(ph, c))
        last = self.of.get(('end', None))
        ctx.check(last is not None, 'states', 'no end state')
        self.fin = {last}
        if self.mode == 'reward_state':
            ctx.check(('end-reward', None) in self.of, 'states', 'no reward '
                      'state')
            self.fin.add(self.of[('end-reward', None)])
            self.into = self.of[('end-reward', None)]
        else:
            self.into = last
        self.act = {}
        for i, n in enumerate(self.actions):
            if n == 'wait':
                self.act[i] = ('wait', None)
                continue
            for k in ('phy', 'com-ask-intention', 'com-tell-intention',
                      'com-ask-finished'):
                if n.startswith(k + '-'):
                    self.act[i] = (k, n[len(k) + 1:])
            ctx.check(i in self.act and self.act[i][1] in self.copies,
                      'actions', lambda: 'action {}'.format(n))
        self.find = {v: k for k, v in self.act.items()}
        self.leaf = {c: htm.leaf_id(c) for c in self.copies}
        # copies reached after a copy, by one completion: from the model,
        # judged against the task while executing
        T = np.asarray(self.m.T)
        self.succ = {}
        for c in self.copies:
            s = self.of[('R', c)]
            a = self.find[('phy', c)]
            self.succ[c] = {int(j) for j in np.nonzero(T[a, s])[0]} - {s}
            for j in self.succ[c]:
                ok = j == self.into and (self.leaf[c], None) in self.pairs or \
                    self.pos[j][0] == 'init' and \
                    (self.leaf[c], self.leaf[self.pos[j][1]]) in self.pairs
                ctx.check(ok, 'order', lambda: 'completing {} leads to {}; '
                          'the task is {}'.format(c, self.states[j],
                                                  htm.show(self.spec)))
            h = self.of[('H', c)]
            for b in range(len(self.actions)):
                p, q = T[b, h].copy(), T[a, s].copy()
                p[h] = q[s] = 0
                if p.sum() > 1e-6 and q.sum() > 1e-6:
                    p, q = p / p.sum(), q / q.sum()
                    ctx.check(np.abs(p - q).max() < 1e-6, 'chance', lambda:
                              'after {}, what follows depends on who did it: '
                              '{} and {}'.format(c, p, q))
            ctx.check(self.succ[c], 'stuck', lambda: 'completing {} leads '
                      'nowhere'.format(c))
        self.later = {}
        for c in self.copies:
            seen, todo = set(), list(self.succ[c])
            while todo:
                j = todo.pop()
                if j in seen:
                    continue
                seen.add(j)
                if self.pos[j][1]:
                    seen |= {self.of[(ph, self.pos[j][1])]
                             for ph in ('H', 'R')}
                    todo += list(self.succ[self.pos[j][1]])
            if self.mode == 'reward_state' and self.into in seen:
                seen.add(max(self.fin))
            self.later[c] = seen

    def duration(self, a):
        k, c = self.act[a]
        if k == 'wait':
            return self.kw['t_wait']
        if k == 'phy':
            return self.acts[self.leaf[c]]['durations'][2]
        return self.kw['t_tell' if k == 'com-tell-intention' else 't_ask']

    # What must happen -----------------------------------------------------

    def moves(self, a, s):
        """{outcome: probability}: outcomes are states, or 'next'."""
        k, c = self.act[a]
        ph, at = self.pos[s]
        if at is None:
            if self.mode == 'loop':
                return {'start': 1.}
            return {self.of[('end', None)]: 1.}
        x = self.acts[self.leaf[at]]
        if ph == 'init' and c == at:
            if k == 'com-ask-intention':
                return {self.of[('R', at)]: x['no'],
                        self.of[('H', at)]: 1 - x['no']}
            if k == 'com-tell-intention':
                return {self.of[('R', at)]: 1.}
        if ph == 'R' and c == at and k == 'phy':
            return {s: x['fail'], 'next': 1 - x['fail']}
        if ph == 'H':
            if self.kw.get('deterministic'):
                if k == 'com-ask-finished' and c == at:
                    return {'next': 1.}
            else:
                p = math.exp(-self.duration(a) / x['durations'][0])
                return {s: p, 'next': 1 - p}
        return {s: 1.}

    def observation(self, a, s2):
        k, c = self.act[a]
        ph, at = self.pos[s2]
        if self.mode != 'plain' and s2 == self.into:
            return 'done'
        if self.mode == 'reward_state' and ph == 'end':
            return 'none'
        if k == 'wait':
            return 'none'
        if k == 'com-tell-intention':
            return 'error' if self.kw.get('structured') and \
                (ph, at) != ('R', c) else 'none'
        if k == 'phy':
            return 'none' if s2 in self.succ[c] else 'error'
        if k == 'com-ask-intention':
            return {'H': 'yes', 'R': 'no'}[ph] if at == c and ph != 'init' \
                else 'error' if self.kw.get('structured') else 'none'
        if self.kw.get('deterministic'):
            if at == c and ph == 'H':
                return 'no'
            return 'yes' if s2 in self.succ[c] else 'error'
        return 'yes' if s2 in self.later[c] else 'no'

    def reward(self, a, s, s2):
        k, c = self.act[a]
        ph, at = self.pos[s]
        intr = 0 if k == 'wait' else self.kw['intr_cost']
        if at is None:
            if k != 'wait':
                return -self.kw['intr_cost']
            if ph == 'end' and self.mode == 'reward_state':
                return 0.
            return self.kw['end_reward']
        d = self.duration(a)
        if k == 'phy' and (ph, at) == ('R', c):
            d = self.acts[self.leaf[c]]['durations'][1]
        r = -(d + intr)
        if self.kw.get('subtask_reward') and self.pos[s2][1] != at:
            r += self.kw['subtask_reward']
        return r

    def row(self, a, s):
        """The model's own probabilities against what must happen."""
        want = self.moves(a, s)
        p = np.asarray(self.m.T)[a, s]
        left = 1.
        for o, q in want.items():
            if isinstance(o, str):
                continue
            self.ctx.check(abs(p[o] - q) < 1e-7, 'probability', lambda:
                           '{} in {} leads to {} with probability {} instead '
                           'of {}'.format(self.actions[a], self.states[s],
                                          self.states[o], p[o], q))
        others = {int(j) for j in np.nonzero(p)[0]} - set(want)
        if 'start' in want:
            st = np.asarray(self.m.start)
            self.ctx.check(all(st[j] > 0 for j in others), 'restart', lambda:
                           'the end goes to {}'.format(
                               [self.states[j] for j in others]))
        elif 'next' in want:
            at = self.pos[s][1]
            self.ctx.check(others <= self.succ[at], 'order', lambda: '{} in '
                           '{} leads to {} and the robot to {}'.format(
                               self.actions[a], self.states[s],
                               [self.states[j] for j in others],
                               [self.states[j] for j in self.succ[at]]))
        else:
            self.ctx.check(not others, 'moved', lambda: '{} in {} leads to {}'
                           .format(self.actions[a], self.states[s],
                                   [self.states[j] for j in others]))

    # Executions -------------------------------------------------------------

    def run(self):
        ctx, ch = self.ctx, self.ch
        best = 0
        start = np.asarray(self.m.start)
        for j in np.nonzero(start)[0]:
            ph, at = self.pos[j]
            ctx.check(ph == 'init' and (self.leaf[at],) in self.prefixes,
                      'start', lambda: 'the execution may start in {}'.format(
                          self.states[j]))
        first, got = first_leaf(self.spec), {}
        for j in np.nonzero(start)[0]:
            i = self.leaf[self.pos[j][1]]
            got[i] = got.get(i, 0.) + start[j]
        ctx.check(all(abs(got.get(i, 0.) - q) < 1e-7
                      for i, q in first.items()), 'chance', lambda: 'the '
                  'first subtask has chances {}; the task is {}'.format(
                      got, htm.show(self.spec)))
        if len(set(first.values())) > 1:
            ctx.probe('unequal-choice')
        for _ in range(ch.between(1, 2)):
            purposeful = ch.chance(.5)
            ctx.probe('purposeful' if purposeful else 'random-actions')
            s = int(self.m.sample_start())
            ctx.check(start[s] > 0, 'start', 'impossible start')
            self.word, self.collected = (), 0
            after = ch.between(1, 4)
            limit = 3000 if purposeful else ch.pick([20, 100])
            n = slow = 0
            while limit > 0 and after > 0:
                limit -= 1
                if s in self.fin:
                    after -= 1
                    a = 0 if ch.chance(.5) else ch.draw(len(self.actions))
                else:
                    a = self.choose(s, purposeful, slow)
                s2, o, r = self.m.sample_transition(a, s)
                s2, o, r = int(s2), int(o), float(r)
                self.judge(a, s, s2, o, r)
                slow = slow + 1 if s2 == s else 0
                best = max(best, len(self.word))
                s = s2
                n += 1
            ctx.sim_time += n
            if purposeful:
                ctx.check(after == 0, 'no-end', lambda: 'still in {} after {} '
                          'purposeful actions'.format(self.states[s], n))
        return best

    def choose(self, s, purposeful, slow):
        ch = self.ch
        ph, at = self.pos[s]
        if not purposeful and ch.chance(.6):
            return ch.draw(len(self.actions))
        if ph == 'init':
            return self.find[(ch.pick(['com-tell-intention',
                                       'com-ask-intention']), at)]
        if ph == 'R':
            return self.find[('phy', at)]
        if self.kw.get('deterministic') or slow % 2:
            return self.find[('com-ask-finished', at)]
        if slow > 50:
            # the most patient action
            return max(range(len(self.actions)), key=self.duration)
        return 0

    def judge(self, a, s, s2, o, r):
        ctx = self.ctx
        k, c = self.act[a]
        ph, at = self.pos[s]
        ctx.event(self.actions[a], s, s2, self.obs[o], r)
        self.row(a, s)
        want = self.moves(a, s)
        if s2 not in want:
            ctx.check('next' in want or 'start' in want, 'moved', lambda:
                      '{} in {} leads to {}'.format(
                          self.actions[a], self.states[s], self.states[s2]))
        if at is None:
            if self.mode == 'loop':
                ctx.probe('restarted')
                self.word = ()
            else:
                ctx.probe('stays')
                ctx.check(self.pos[s2] == ('end', None), 'left-end', lambda:
                          'the end is left for {}'.format(self.states[s2]))
        elif s2 not in want:
            self.word += (self.leaf[at],)
            ctx.probe('human-finished' if ph == 'H' else 'robot-finished')
            if s2 == self.into:
                ctx.probe('complete')
                ctx.check(self.word in self.words, 'incomplete', lambda:
                          'the end is reached after {}; the task is {}'.format(
                              self.word, htm.show(self.spec)))
            else:
                ctx.check(self.pos[s2][0] == 'init' and self.word +
                          (self.leaf[self.pos[s2][1]],) in self.prefixes,
                          'order', lambda: 'after {} comes {}; the task is {}'
                          .format(self.word, self.states[s2],
                                  htm.show(self.spec)))
        elif ph == 'R' and k == 'phy' and c == at:
            ctx.fault('robot-failed')
        elif k == 'phy':
            ctx.fault('wrong-moment')
        elif ph == 'init' and k == 'com-ask-intention' and c == at and \
                self.pos[s2][0] == 'R':
            ctx.fault('human-refused')
        elif ph == 'H':
            ctx.fault('human-slow')
        if k == 'com-ask-finished':
            ctx.probe('asked-finished')
        exp = self.observation(a, s2)
        ctx.check(self.obs[o] == exp, 'observation', lambda: '{} in {} '
                  'leading to {} is observed as {} instead of {}'.format(
                      self.actions[a], self.states[s], self.states[s2],
                      self.obs[o], exp))
        exp = self.reward(a, s, s2)
        if self.kw.get('structured') and k == 'com-tell-intention' and \
                not (ph == 'init' and at == c):
            won = self.kw.get('subtask_reward', 0) if \
                self.pos[s2][1] != at else 0
            if min(abs(r + PENALTY), abs(r + PENALTY - won)) < 1e-7:
                exp = r
        ctx.check(abs(exp - r) < 1e-7, 'reward', lambda: '{} in {} leading to '
                  '{} is rewarded {} instead of {}'.format(
                      self.actions[a], self.states[s], self.states[s2], r,
                      exp))
        if at is None and k == 'wait' and r > 0:
            ctx.probe('end-reward-collected')
            self.collected += 1
            ctx.check(self.mode != 'reward_state' or self.collected == 1,
                      'reward', 'the end reward is collected twice')
