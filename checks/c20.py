"""C20: policy-graph executions follow the edges; beliefs stay consistent."""
import json
import os
import tempfile

import numpy as np

from sim import fsio, loader, models, policies, taskmodels
from sim.core import InjectedFault, SimCrash

ID = 'C20'
RUNS = {'quick': 10000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of policy executions, possible and '
             'impossible observations, model errors and storage faults; '
             'oracle is a reference automaton and an independent Bayesian '
             'filter replaying the same histories')
RULE = ('random or task-derived models, random policy graphs with missing '
        'edges; random walks of both runners with resets (to beliefs too), '
        'trees and visited graphs computed from any position, saved under '
        'storage faults; non-trivial: a tree of depth two, a visited graph '
        'of two nodes or an execution of three steps was judged')
COMPONENTS = {
    'real': ['task_models.lib.pomdp'],
    'stub': ['raw file layer under the scratch directory', 'model errors']}
ASSUMPTIONS = ['nodes whose values agree to 1e-9 are equally good',
               'visited beliefs closer than 0.01 count as the same',
               'beliefs agree to 1e-9']
PROBES = ('graph', 'belief', 'tree', 'trees', 'visit', 'saved', 'reset',
          'reset-to-belief', 'no-edge', 'impossible', 'capped', 'merged',
          'several-starts', 'after-steps', 'deep', 'task-model', 'tie')
FAULTS = ('impossible-observation', 'unknown-observation', 'model-error') + \
    tuple('disk-' + k for k in fsio.WRITE_KINDS)


def setup():
    loader.load()


class Ref:
    """Independent filter over the arrays of a model."""

    def __init__(self, snap):
        self.T, self.O, self.start = snap['T'], snap['O'], snap['start']
        self.obs, self.acts = snap['observations'], snap['actions']

    def update(self, b, a, o):
        """Posterior, or None when impossible."""
        n = len(self.start)
        p = np.zeros(n)
        for i in range(n):
            if b[i]:
                for j in np.nonzero(self.T[a, i])[0]:
                    p[j] += b[i] * self.T[a, i, j]
        p *= self.O[a, :, o]
        t = p.sum()
        return None if t == 0 else p / t


def near(b, c, tol=1e-9):
    b, c = np.asarray(b, float), np.asarray(c, float)
    return b.shape == c.shape and np.abs(b - c).max() < tol


def best(values, b):
    v = np.asarray(values, float).dot(np.asarray(b, float))
    return {int(i) for i in np.nonzero(v >= v.max() - 1e-9 *
                                       max(1., abs(v.max())))[0]}


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        with fsio.FaultFS(ctx, root) as fs:
            Scenario(ctx, root, fs).run()
    finally:
        import shutil
        shutil.rmtree(root, ignore_errors=True)


class Scenario:

    def __init__(self, ctx, root, fs):
        self.ctx, self.ch, self.root, self.fs = ctx, ctx.ch, root, fs
        self.ns = loader.load()
        self.pd = self.ns.pomdp
        ch = self.ch
        if ch.chance(.1):
            ctx.probe('task-model')
            if ch.chance(.5):
                m = taskmodels.random_collab(ctx, max_leaves=2,
                                             max_expanded=3)[-1]
            else:
                m = taskmodels.random_bring(ctx, max_leaves=2)[-1]
        else:
            m = models.random_pomdp(ctx, max_s=ch.pick([2, 3, 4]), max_a=3,
                                    max_o=3)[0]
        self.fault_in = None
        real = m.belief_update

        def update(*args, **kwargs):
            if self.fault_in is not None:
                self.fault_in -= 1
                if self.fault_in < 0:
                    self.fault_in = None
                    ctx.fault('model-error')
                    raise InjectedFault('model error')
            return real(*args, **kwargs)

        m.belief_update = update
        self.m = m
        self.snap = models.snapshot(m)
        self.ref = Ref(self.snap)
        self.g, self.d = policies.random_graph(ctx, m)
        self.gsnap = policies.snapshot(self.g)
        self.obs = self.snap['observations']
        self.depth = 0

    def run(self):
        ctx, ch = self.ctx, self.ch
        for _ in range(ch.between(1, 3)):
            if ch.chance(.3):
                self.graph_runner()
            else:
                self.belief_runner()
        d = models.difference(self.m, self.snap)
        ctx.check(d is None, 'model-changed', lambda: 'executing the policy '
                  'changed the model: {}'.format(d))
        d = policies.difference(self.g, self.gsnap)
        ctx.check(d is None, 'policy-changed', lambda: 'executing the policy '
                  'changed it: {}'.format(d))
        ctx.nontrivial = self.depth >= 2
        ctx.sample = {'nodes': len(self.d['actions']),
                      'states': len(self.snap['states']),
                      'observations': len(self.obs), 'depth': self.depth}

    def random_belief(self):
        n = len(self.snap['start'])
        w = np.array([self.ch.draw(4) for _ in range(n)], float)
        if w.sum() == 0:
            w[self.ch.draw(n)] = 1.
        return w / w.sum()

    # Without beliefs

    def graph_runner(self):
        ctx, ch, d = self.ctx, self.ch, self.d
        ctx.probe('graph')
        r = self.pd.GraphPolicyRunner(self.g)
        cur = {d['init']}
        n = 0
        for _ in range(ch.pick([5, 15])):
            what = ch.weighted([(8, 'step'), (1, 'reset'), (1, 'belief')])
            if what == 'reset':
                ctx.probe('reset')
                ctx.event('reset')
                r.reset()
                cur, n = {d['init']}, 0
            elif what == 'belief':
                b = self.random_belief()
                ctx.probe('reset-to-belief')
                ctx.event('reset', b)
                r.reset(belief=b.copy())
                cur, n = best(d['values'], b), 0
            a = r.get_action()
            ctx.event(a)
            cur = {i for i in cur if d['actions'][i] == a}
            ctx.check(cur, 'action', lambda: 'the execution does {} where the '
                      'graph says otherwise'.format(a))
            if len(cur) > 1:
                ctx.probe('tie')
            o = ch.draw(len(self.obs) + 1)
            if o == len(self.obs):
                ctx.fault('unknown-observation')
                try:
                    r.step('nothing such')
                except Exception:
                    continue
                ctx.violate('accepted', 'an unknown observation is accepted')
            nxt = {d['transitions'][i][o] for i in cur}
            ctx.event('observe', self.obs[o])
            try:
                r.step(self.obs[o])
            except self.pd.Impossible:
                ctx.fault('impossible-observation')
                ctx.probe('no-edge')
                ctx.check(None in nxt, 'rejected', lambda: 'observation {} is '
                          'rejected though the graph has an edge'.format(
                              self.obs[o]))
                cur = {i for i in cur if d['transitions'][i][o] is None}
                continue
            nxt.discard(None)
            ctx.check(nxt, 'accepted', lambda: 'observation {} is accepted '
                      'though the graph has no edge'.format(self.obs[o]))
            cur = nxt
            n += 1
            self.depth = max(self.depth, n - 1)
            ctx.sim_time += 1

    # With beliefs

    def belief_runner(self):
        ctx, ch = self.ctx, self.ch
        ctx.probe('belief')
        r = self.pd.GraphPolicyBeliefRunner(self.g, self.m)
        b = self.snap['start']
        n = 0
        for _ in range(ch.pick([4, 10])):
            what = ch.weighted([(8, 'step'), (1, 'reset'), (1, 'belief'),
                                (1, 'tree'), (1, 'trees'), (1, 'visit'),
                                (1, 'save')])
            if what == 'step':
                b, n = self.step(r, b, n)
                continue
            ctx.event(what)
            if n:
                ctx.probe('after-steps')
            if what == 'reset':
                ctx.probe('reset')
                r.reset()
                b, n = self.snap['start'], 0
            elif what == 'belief':
                ctx.probe('reset-to-belief')
                b, n = self.random_belief(), 0
                r.reset(belief=b.copy())
            elif what == 'tree':
                h = ch.between(0, 3)
                if self.injecting(lambda: r.trajectory_tree(h)):
                    r.reset()
                    b, n = self.snap['start'], 0
                t = r.trajectory_tree(h)
                ctx.probe('tree')
                self.tree(t, b, h)
                self.at(r, b, 'after computing a tree')
            else:
                {'trees': self.trees, 'visit': self.visit,
                 'save': self.save}[what](r)
                r.reset()
                b, n = self.snap['start'], 0

    def injecting(self, f):
        if not self.ch.chance(.15):
            return False
        self.fault_in = self.ch.draw(6)
        try:
            f()
        except InjectedFault:
            self.ctx.event('aborted')
        self.fault_in = None
        return True

    def at(self, r, b, when):
        a = r.get_action()
        ok = best(self.d['values'], b)
        if len(ok) > 1:
            self.ctx.probe('tie')
        self.ctx.check(any(self.d['actions'][i] == a for i in ok), 'action',
                       lambda: '{} the execution does {} and the best nodes '
                       'for the belief {} do {}'.format(
                           when, a, b, [self.d['actions'][i] for i in ok]))
        self.ctx.check(near(r.current_belief, b), 'belief', lambda: '{} the '
                       'belief is {} instead of {}'.format(
                           when, r.current_belief, b))
        return self.snap['actions'].index(a)

    def step(self, r, b, n):
        ctx, ch = self.ctx, self.ch
        a = self.at(r, b, 'after {} steps'.format(n))
        o = ch.draw(len(self.obs) + 1)
        if o == len(self.obs):
            ctx.fault('unknown-observation')
            try:
                r.step('nothing such')
            except Exception:
                return b, n
            ctx.violate('accepted', 'an unknown observation is accepted')
        new = self.ref.update(b, a, o)
        ctx.event('observe', self.obs[o], new is not None)
        if ch.chance(.05):
            self.fault_in = 0
        try:
            r.step(self.obs[o])
        except InjectedFault:
            return b, n
        except self.pd.Impossible:
            ctx.fault('impossible-observation')
            ctx.probe('impossible')
            ctx.check(new is None, 'rejected', lambda: 'the possible '
                      'observation {} is rejected at belief {}'.format(
                          self.obs[o], b))
            return b, n
        finally:
            self.fault_in = None
        ctx.check(new is not None, 'accepted', lambda: 'the impossible '
                  'observation {} is accepted at belief {}'.format(
                      self.obs[o], b))
        ctx.sim_time += 1
        self.depth = max(self.depth, n)
        self.at(r, new, 'after {} steps'.format(n + 1))
        return new, n + 1

    def tree(self, t, b, h, path=()):
        """Is it the tree of all possible histories up to h observations?"""
        ctx = self.ctx
        where = 'after observations {}'.format(list(path))
        ctx.check(near(t['belief'], b), 'tree-belief', lambda: '{} the tree '
                  'has belief {} instead of {}'.format(where, t['belief'], b))
        ok = best(self.d['values'], b)
        ctx.check(t['node'] in ok, 'tree-node', lambda: '{} the tree has node '
                  '{} and the best are {}'.format(where, t['node'], ok))
        ctx.check(t['action'] == self.d['actions'][t['node']], 'tree-action',
                  lambda: '{} the tree has action {}'.format(where,
                                                             t['action']))
        a = self.snap['actions'].index(t['action'])
        want = []
        if h > 0:
            for o in range(len(self.obs)):
                new = self.ref.update(b, a, o)
                if new is not None:
                    want.append((self.obs[o], new))
            self.depth = max(self.depth, len(path) + 1)
            if len(path) >= 2:
                ctx.probe('deep')
        ctx.check(list(t['observations']) == [o for o, _ in want],
                  'tree-observations', lambda: '{} the tree has observations '
                  '{} and the possible ones are {}'.format(
                      where, t['observations'], [o for o, _ in want]))
        ctx.check(len(t['children']) == len(want), 'tree-children', lambda:
                  '{} the tree has {} children'.format(where,
                                                       len(t['children'])))
        for c, (o, new) in zip(t['children'], want):
            self.tree(c, new, h - 1, path + (o,))

    def start_states(self):
        return [i for i, p in enumerate(self.snap['start']) if p > 0]

    def judge_trees(self, d, h):
        ctx = self.ctx
        ts = d['graphs']
        starts = self.start_states()
        if len(starts) > 1:
            ctx.probe('several-starts')
        ctx.check(len(ts) == len(starts), 'trees', lambda: '{} trees for the '
                  'start states {}'.format(len(ts), starts))
        for s, t in zip(starts, ts):
            b = np.zeros(len(self.snap['start']))
            b[s] = 1.
            self.tree(t, b, h)

    def trees(self, r):
        ctx, ch = self.ctx, self.ch
        ctx.probe('trees')
        h = ch.pick([2, 1, 0, 3, None])
        if len(self.obs) > 3 and h is None:
            h = 2
        kw = {} if h is None else {'horizon': h}
        self.injecting(lambda: r.trajectory_trees_from_starts(**kw))
        self.judge_trees(r.trajectory_trees_from_starts(**kw),
                         5 if h is None else h)

    def save(self, r):
        ctx, ch, fs = self.ctx, self.ch, self.fs
        ctx.probe('saved')
        h = ch.between(0, 2)
        path = os.path.join(self.root, 'trees.json')
        if os.path.exists(path):
            os.remove(path)
        kw = {'indent': 2} if ch.chance(.3) else {}
        if ch.chance(.5):
            fs.arm(ch.pick(fsio.WRITE_KINDS),
                   ch.pick([0, ch.draw(100), ch.draw(3000)]))
        good = False
        try:
            r.save_trajectories_from_starts(path, horizon=h, **kw)
            good = True
        except SimCrash:
            fs.reboot()
        except OSError as e:
            ctx.check(fs.fired, 'save', lambda: 'saving raised {!r}'.format(e))
        fs.disarm()
        ctx.event('saved', good)
        try:
            with open(path) as f:
                d = json.load(f)
        except (OSError, ValueError):
            ctx.check(not good, 'save', 'the saved trees cannot be read')
            return
        self.judge_trees(d, h)

    def visit(self, r):
        ctx, ch = self.ctx, self.ch
        ctx.probe('visit')
        cap = ch.pick([None, 0, 2, 5, 20])
        kw = {} if cap is None else {'max_states': cap}
        cap = 100 if cap is None else cap
        self.injecting(lambda: r.visit(**kw))
        self.judge_visit(r.visit(**kw), cap)

    def judge_visit(self, g, cap=100):
        ctx, ref = self.ctx, self.ref
        beliefs = np.asarray(g.values, float)
        n = len(beliefs)
        self.depth = max(self.depth, n)
        ctx.event('visited', n)
        ctx.check(list(g.observations) == self.obs and len(g.actions) == n and
                  int(g.init) == 0, 'visit-shape', lambda: 'the visited graph '
                  'has {} actions for {} nodes, starts at {}'.format(
                      len(g.actions), n, g.init))
        ctx.check(n <= max(cap, 0) + len(self.obs) + 1, 'visit-cap', lambda:
                  '{} nodes were visited with a maximum of {}'.format(n, cap))
        ctx.check(near(beliefs[0], self.snap['start']), 'visit-start', lambda:
                  'the visit starts at {}'.format(beliefs[0]))
        for i in range(n):
            for j in range(i):
                dist = np.sqrt(((beliefs[i] - beliefs[j]) ** 2).sum())
                ctx.check(dist > .01 - 1e-9, 'visit-duplicate', lambda:
                          'nodes {} and {} have the same belief {}'.format(
                              j, i, beliefs[i]))
        reached = {0}
        stopped = False
        for i in range(n):
            a = g.actions[i]
            ok = best(self.d['values'], beliefs[i])
            ctx.check(any(self.d['actions'][k] == a for k in ok),
                      'visit-action', lambda: 'the visited graph does {} at '
                      'belief {}'.format(a, beliefs[i]))
            row = [None if t is None else int(t) for t in g.transitions[i]]
            post = [ref.update(beliefs[i], self.snap['actions'].index(a), o)
                    for o in range(len(self.obs))]
            if all(t is None for t in row):
                # not expanded, when there are too many nodes
                stopped = True
                continue
            ctx.check(not stopped, 'visit-order', lambda: 'node {} is '
                      'expanded and an earlier one is not'.format(i))
            for o, (t, p) in enumerate(zip(row, post)):
                ctx.check((t is None) == (p is None), 'visit-edge', lambda:
                          'at belief {}, observation {} is {} and the graph '
                          'has {}'.format(
                              beliefs[i], self.obs[o], 'possible' if p is not
                              None else 'impossible', t))
                if t is None:
                    continue
                ctx.check(0 <= t < n and np.sqrt(
                    ((beliefs[t] - p) ** 2).sum()) < .01 + 1e-9, 'visit-edge',
                          lambda: 'observation {} at belief {} leads to {} '
                          'instead of {}'.format(self.obs[o], beliefs[i],
                                                 beliefs[t], p))
                if t not in reached:
                    reached.add(t)
                elif not near(beliefs[t], p, 1e-7):
                    ctx.probe('merged')
        if stopped:
            ctx.probe('capped')
            ctx.check(n > cap, 'visit-incomplete', lambda: 'nodes are not '
                      'expanded although only {} of {} were visited'.format(
                          n, cap))
        ctx.check(len(reached) == n, 'visit-unreachable', lambda: 'nodes {} '
                  'are visited and cannot be reached'.format(
                      sorted(set(range(n)) - reached)))
