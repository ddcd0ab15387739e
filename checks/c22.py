"""C22: bring-next models execute the task they were built from."""
import numpy as np

from sim import htm, loader, taskmodels

ID = 'C22'
RUNS = {'quick': 12000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of closed-loop executions of the built '
             'models with wrong parts, missing answers and spurious errors; '
             'oracle is an independent automaton of the task')
RULE = ('random task, parts (also shared by several steps), costs and '
        'options (loop, silence, discount), several models built in a row, '
        'and the tower problem; executions by random and by purposeful '
        'actions, past the end; non-trivial: a complete ordering of two or '
        'more steps')
COMPONENTS = {
    'real': ['task_models.bring_next_to_pomdp', 'task_models.task',
             'task_models.lib.pomdp', 'task_models.tower_problem'],
    'stub': ['the human (the model\'s own random outcomes, seeded)']}
ASSUMPTIONS = ['states are named by step',
               'observations depend on the action and on the step reached, '
               'as in the model format: a wrong part is also silent when it '
               'is the one that leads to the current step']
PROBES = ('complete', 'loop', 'stays', 'restarted', 'end-reward',
          'no-answer', 'silent', 'asked', 'wrong-part', 'purposeful',
          'random-actions', 'shared-part', 'parallel', 'alternative', 'tower',
          'rebuilt', 'end-reward-twice')
FAULTS = ('wrong-part', 'spurious-error', 'silence')


def setup():
    loader.load()


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    best = 0
    for _ in range(ch.between(1, 3)):
        if ch.chance(.1):
            kw, spec, part, m = tower(ctx)
        else:
            kw, spec, part, m = taskmodels.random_bring(ctx)
            part = {i: 'obj%d' % p for i, p in enumerate(part)}
        best = max(best, Execution(ctx, kw, spec, part, m).run())
    ctx.nontrivial = best >= 2
    ctx.sample = {'task': htm.show(spec), 'options': sorted(kw),
                  'done': best}


def tower(ctx):
    """The package's own tower problem, read back from its task tree."""
    ch = ctx.ch
    ns = loader.load()
    t = ns.tower_problem.TowerProblem(2, 2)
    task = t.vertical_horizontal_task()
    ctx.probe('tower')
    ctx.event('tower')
    leaves = {}
    part = {}

    def read(n):
        tk = ns.task
        if isinstance(n, tk.LeafCombination):
            i = leaves.setdefault(n.action.name.lower().replace(' ', '-'),
                                  len(leaves))
            part[i] = n.action.obj
            return ('leaf', i)
        k = {tk.SequentialCombination: 'seq', tk.AlternativeCombination:
             'alt', tk.ParallelCombination: 'par'}[type(n)]
        return (k, [read(c) for c in n.children])

    spec = read(task.root)
    kw = {'t_com': 1., 't_get': 5., 't_err': 20., 'objects': list(t.parts),
          'end_reward': 10., 'loop': ch.chance(.5), 'no_answer':
          ch.chance(.5), 'names': leaves}
    build = {k: v for k, v in kw.items() if k != 'names'}
    m = ns.bring_next.HTMToPOMDP(**build).task_to_pomdp(task)
    return kw, spec, part, m


class Execution:

    def __init__(self, ctx, kw, spec, part, m):
        self.ctx, self.ch = ctx, ctx.ch
        self.kw, self.spec, self.part, self.m = kw, spec, part, m
        self.words = htm.words(spec)
        self.prefixes = htm.prefixes(self.words)
        self.pairs = {(a, b) for w in self.words
                      for a, b in zip(w, w[1:] + (None,))}
        self.states = list(m.states)
        self.actions = list(m.actions)
        self.obs = list(m.observations)
        self.loop = kw['loop']
        s = htm.show(spec)
        for k, p in (('par', 'parallel'), ('alt', 'alternative')):
            if k in s:
                ctx.probe(p)
        if self.loop:
            ctx.probe('loop')
        if kw['no_answer']:
            ctx.probe('no-answer')
        if len(set(part.values())) < len(part):
            ctx.probe('shared-part')
        want = ['get-' + o for o in kw['objects']] + \
            ['ask-' + o for o in kw['objects']]
        ctx.check(sorted(self.actions) == sorted(want), 'actions', lambda:
                  'actions {} for the objects {}'.format(self.actions,
                                                         kw['objects']))
        if kw.get('discount') is not None:
            ctx.check(m.discount == kw['discount'], 'discount', lambda:
                      'discount {} instead of {}'.format(m.discount,
                                                         kw['discount']))
        else:
            ctx.check(0. < m.discount < 1. if self.loop else m.discount == 1.,
                      'discount', lambda: 'default discount {} of a task that '
                      '{}'.format(m.discount, 'restarts' if self.loop else
                                  'ends'))
        ctx.check('end' in self.states, 'states', lambda: 'states {}'.format(
            self.states))
        self.end = self.states.index('end')
        self.leaf = {}
        for i, n in enumerate(self.states):
            if i == self.end:
                continue
            ctx.check(n.startswith('before-'), 'states', 'state ' + n)
            names = kw.get('names')
            if names:
                # copies in parallel branches get a suffix
                c = [k for k in names if n[7:].startswith(k)]
                ctx.check(c, 'states', 'state ' + n)
                self.leaf[i] = names[max(c, key=len)]
            else:
                self.leaf[i] = htm.leaf_id(n)
        T = np.asarray(m.T)
        self.succ = {}
        for i, l in self.leaf.items():
            a = self.actions.index('get-' + part[l])
            self.succ[i] = {int(j) for j in np.nonzero(T[a, i])[0]}
            for j in self.succ[i]:
                to = None if j == self.end else self.leaf[j]
                ctx.check((l, to) in self.pairs, 'order', lambda: 'fetching '
                          'in {} leads to {}; the task is {}'.format(
                              self.states[i], self.states[j],
                              htm.show(spec)))
        # steps to which a part leads
        self.by_part = {}
        for i, l in self.leaf.items():
            self.by_part.setdefault(part[l], set()).update(self.succ[i])

    def verb(self, a):
        return self.actions[a].split('-', 1)

    def row(self, a, s):
        ctx = self.ctx
        to = {int(j) for j in np.nonzero(np.asarray(self.m.T)[a, s])[0]}
        v, o = self.verb(a)
        if s == self.end:
            start = np.asarray(self.m.start)
            ok = to == {s} if not self.loop else \
                all(start[j] > 0 for j in to)
        elif v == 'get' and o == self.part[self.leaf[s]]:
            ok = to == self.succ[s]
        else:
            ok = to == {s}
        ctx.check(ok, 'moved', lambda: '{} in {} may lead to {}'.format(
            self.actions[a], self.states[s], [self.states[j] for j in to]))

    def observations(self, a, s2):
        """Possible observations: the usual one first."""
        v, o = self.verb(a)
        if v == 'get':
            if s2 in self.by_part.get(o, ()):
                return ['none', 'error']
            return ['error']
        yes = s2 != self.end and self.part[self.leaf[s2]] == o
        return ['yes' if yes else 'no'] + (
            ['none'] if self.kw['no_answer'] else [])

    def reward(self, a, s, s2):
        v, o = self.verb(a)
        k = self.kw
        if s == self.end:
            return k['end_reward'] if self.loop else 0.
        if v == 'ask':
            r = -k['t_com']
        elif o == self.part[self.leaf[s]]:
            r = -k['t_get']
        else:
            r = -k['t_err']
        if s2 == self.end and not self.loop:
            r += k['end_reward']
        return r

    def run(self):
        ctx, ch = self.ctx, self.ch
        best = 0
        start = np.asarray(self.m.start)
        for j in np.nonzero(start)[0]:
            ctx.check(j != self.end and (self.leaf[j],) in self.prefixes,
                      'start', lambda: 'the execution may start in {}'.format(
                          self.states[j]))
        for _ in range(ch.between(1, 2)):
            purposeful = ch.chance(.5)
            ctx.probe('purposeful' if purposeful else 'random-actions')
            s = int(self.m.sample_start())
            ctx.event('start', s)
            ctx.check(start[s] > 0, 'start', 'impossible start')
            self.word, bonus, ended = (), 0, 0
            after = ch.between(1, 4)
            n = 0
            limit = ch.pick([100, 30])
            while after > 0 and n < limit:
                if s == self.end:
                    after -= 1
                if purposeful and s != self.end and (
                        n % 3 or not ch.chance(.2)):
                    a = self.actions.index('get-' + self.part[self.leaf[s]])
                elif s != self.end and ch.chance(.2):
                    a = self.actions.index('get-' + self.part[self.leaf[s]])
                else:
                    a = ch.draw(len(self.actions))
                s2, o, r = self.m.sample_transition(a, s)
                s2, o, r = int(s2), int(o), float(r)
                self.judge(a, s, s2, o, r)
                if s2 == self.end and s != self.end:
                    ended += 1
                # bonus received, whatever the costs
                got = r - self.base(a, s)
                if abs(got - self.kw['end_reward']) < 1e-7:
                    bonus += 1
                    ctx.probe('end-reward')
                best = max(best, len(self.word))
                s = s2
                n += 1
            ctx.sim_time += n
            due = ended - (1 if self.loop and s == self.end else 0)
            ctx.check(bonus == due, 'reward', lambda: 'the end reward was '
                      'collected {} times for {} completions'.format(bonus,
                                                                     due))
            if bonus > 1:
                ctx.probe('end-reward-twice')
            if purposeful and limit == 100:
                ctx.check(ended > 0, 'no-end', lambda: 'still in {} after {} '
                          'purposeful actions'.format(self.states[s], n))
        return best

    def base(self, a, s):
        if s == self.end:
            return 0.
        v, o = self.verb(a)
        return -self.kw['t_com' if v == 'ask' else 't_get'
                        if o == self.part[self.leaf[s]] else 't_err']

    def judge(self, a, s, s2, o, r):
        ctx = self.ctx
        v, obj = self.verb(a)
        ctx.event(self.actions[a], s, s2, self.obs[o], r)
        self.row(a, s)
        if s == self.end:
            if self.loop:
                ctx.probe('restarted')
                ctx.check(s2 != s and (self.leaf[s2],) in self.prefixes,
                          'restart', lambda: 'the task restarts in {}'.format(
                              self.states[s2]))
                self.word = ()
            else:
                ctx.probe('stays')
                ctx.check(s2 == s, 'left-end', lambda: 'the end is left for '
                          '{}'.format(self.states[s2]))
        elif s2 != s:
            self.word += (self.leaf[s],)
            if s2 == self.end:
                ctx.probe('complete')
                ctx.check(self.word in self.words, 'incomplete', lambda:
                          'the end is reached after {}; the task is {}'.format(
                              self.word, htm.show(self.spec)))
            else:
                ctx.check(self.word + (self.leaf[s2],) in self.prefixes,
                          'order', lambda: 'after {} comes {}; the task is {}'
                          .format(self.word, self.states[s2],
                                  htm.show(self.spec)))
        elif v == 'get':
            ctx.fault('wrong-part')
            ctx.probe('wrong-part')
            ctx.check(obj != self.part[self.leaf[s]], 'stuck', lambda:
                      'fetching the part of {} does not advance'.format(
                          self.states[s]))
        if v == 'ask':
            ctx.probe('asked')
        ok = self.observations(a, s2)
        ctx.check(self.obs[o] in ok, 'observation', lambda: '{} in {} leading '
                  'to {} is observed as {} instead of {}'.format(
                      self.actions[a], self.states[s], self.states[s2],
                      self.obs[o], ok))
        p = np.asarray(self.m.O)[a, s2]
        ctx.check(p[self.obs.index(ok[0])] >= .5, 'observation', lambda:
                  '{} leading to {} is mostly not observed as {}'.format(
                      self.actions[a], self.states[s2], ok[0]))
        if v == 'ask' and self.kw['no_answer']:
            ctx.check(p[self.obs.index('none')] > 0., 'observation', lambda:
                      'silence is enabled but {} leading to {} is always '
                      'answered'.format(self.actions[a], self.states[s2]))
        if self.obs[o] != ok[0]:
            ctx.fault('silence' if v == 'ask' else 'spurious-error')
            if v == 'ask':
                ctx.probe('silent')
        exp = self.reward(a, s, s2)
        ctx.check(abs(exp - r) < 1e-7, 'reward', lambda: '{} in {} leading to '
                  '{} is rewarded {} instead of {}'.format(
                      self.actions[a], self.states[s], self.states[s2], r,
                      exp))
