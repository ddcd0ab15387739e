"""Recording models and horizons for the tree-search planner, and the small
executable reference its search statistics are compared with.
"""
import math

import numpy as np

from . import threads
from .core import InjectedFault, HarnessError


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


# Models ---------------------------------------------------------------------

def random_stochastic(ch, rows, cols, sparse):
    """Rows of probabilities with small rational entries and zeros."""
    m = np.zeros((rows, cols))
    for i in range(rows):
        kind = ch.draw(3) if sparse else 1
        if kind == 0:
            m[i, ch.draw(cols)] = 1.
        elif kind == 1:
            w = np.array([1 + ch.draw(4) for _ in range(cols)], float)
            m[i] = w / w.sum()
        else:
            w = np.array([ch.draw(4) for _ in range(cols)], float)
            if w.sum() == 0:
                w[ch.draw(cols)] = 1.
            m[i] = w / w.sum()
    return m


def random_arrays(ch, max_s=4, max_a=3, max_o=3, min_s=1, min_o=1, rare=False):
    s, a, o = (ch.between(min_s, max_s), ch.between(1, max_a),
               ch.between(min_o, max_o))
    T = np.stack([random_stochastic(ch, s, s, True) for _ in range(a)])
    O = np.stack([random_stochastic(ch, s, o, True) for _ in range(a)])
    if rare:
        for x in range(a):
            for y in range(s):
                if ch.chance(.5) and o > 1:
                    eps = ch.pick([.02, .002, .0002, 1e-10])
                    k = ch.draw(o)
                    O[x, y] = O[x, y] * (1 - eps)
                    O[x, y, k] += eps
    R = np.zeros((a, s, s, o))
    mode = ch.draw(3)
    for x in range(a):
        if mode == 0:
            R[x] = float(ch.draw(21) - 10)
        elif mode == 1:
            for y in range(s):
                R[x, y] = float(ch.draw(21) - 10)
        else:
            R[x] = np.array([float(ch.draw(21) - 10)
                             for _ in range(s * s * o)]).reshape(s, s, o)
    start = random_stochastic(ch, 1, s, True)[0]
    discount = ch.pick([1., .9, .5, 0.])
    return T, O, R, start, discount


class Recorder:
    """Shared by the recording model, horizon and tree of one planner."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.sims = []            # completed or aborted, in order of ending
        self.running = {}         # thread id -> Sim
        self.calls = 0            # model calls
        self.fault_in = None      # model calls before an injected error
        self.fault_thread = None
        self.on_sim_start = None
        self.on_sim_end = None
        self.exclusive = False    # check mutual exclusion of tree users
        self.pending = {}         # thread id -> last model call
        self.max_calls = 300000
        self.loose = []           # model calls that belong to no horizon
        self.free_calls = None    # log of calls outside simulations
        self.owner = None         # thread running a caller operation

    def tid(self):
        k = threads.KERNEL
        if k is None:
            return 0
        me = k.me()
        return me.tid if me is not None else 0

    def enter(self, what):
        """A tree user or model call in this thread: is it alone?"""
        if self.exclusive:
            me = self.tid()
            for t, sim in self.running.items():
                if t != me:
                    self.fail('interleaved', '{} in thread {} while thread {} '
                              'is in the middle of a simulation'.format(
                                  what, me, t))

    def fail(self, kind, msg):
        k = threads.KERNEL
        from .core import Violation
        if k is not None:
            k.fail(Violation(kind, msg))
        self.ctx.violate(kind, msg)

    def before_call(self, what):
        if threads.KERNEL is not None:
            threads.KERNEL.point(what)
        self.calls += 1
        if self.calls > self.max_calls:
            self.fail('no-progress', 'more than {} calls to the model in one '
                      'operation sequence'.format(self.max_calls))
        self.enter(what)
        if self.fault_in is not None and (
                self.fault_thread is None or self.fault_thread == self.tid()):
            self.fault_in -= 1
            if self.fault_in < 0:
                self.fault_in = None
                self.ctx.fault('model-error')
                self.ctx.event('fault', 'model error in', what)
                raise InjectedFault('simulated model error')

    def after_transition(self, a, s, out):
        t = self.tid()
        self._flush(t)
        self.pending[t] = (int(a), int(s), int(out[0]), int(out[1]),
                           float(out[2]))

    def _flush(self, t):
        p = self.pending.pop(t, None)
        if p is not None:
            sim = self.running.get(t)
            if sim is not None:
                sim.loose.append(p)
            elif self.free_calls is not None:
                self.free_calls.append(p)

    def on_decrement(self, hor, a, s, s2, o):
        t = self.tid()
        p = self.pending.pop(t, None)
        sim = self.running.get(t)
        if sim is None:
            return
        if p is None or (int(a), int(s), int(s2), int(o)) != p[:4]:
            self.fail('horizon', 'horizon told of a transition {} that is not '
                      'the one just sampled {}'.format((a, s, s2, o), p))
        if hor.main:
            if sim.rollouts:
                self.fail('expansion', 'the simulation goes on in the tree '
                          'after its rollouts')
            sim.steps.append(p)
        else:
            sim.rollouts[hor.index].append(p)

    def on_copy(self, hor):
        sim = self.running.get(self.tid())
        if sim is None:
            return None
        self._flush(self.tid())
        sim.rollouts.append([])
        return len(sim.rollouts) - 1


class Sim:
    """What one simulation was observed to do."""

    def __init__(self, node, action, tid, seq):
        self.node = node
        self.action = action
        self.tid = tid
        self.seq = seq
        self.steps = []
        self.rollouts = []
        self.loose = []
        self.edges = []       # of the tree, along the steps, as it ended
        self.status = 'running'
        self.op = None
        self.choice_stats = None

    def __str__(self):
        return 'sim#{} thread {} first={} steps={} rollouts={}'.format(
            self.seq, self.tid, self.action,
            [(a, o, r) for a, _, _, o, r in self.steps],
            [len(x) for x in self.rollouts])


def recording_model(ns, rec, arrays):
    T, O, R, start, discount = arrays

    class RecPOMDP(ns.pomdp.POMDP):

        def sample_transition(self, a, s):
            rec.before_call('sample_transition')
            out = super(RecPOMDP, self).sample_transition(a, s)
            rec.after_transition(a, s, out)
            return out

        def sample_start(self):
            rec.before_call('sample_start')
            return super(RecPOMDP, self).sample_start()

        def belief_update(self, a, o, b):
            rec.before_call('belief_update')
            return super(RecPOMDP, self).belief_update(a, o, b)

    na, nstates, no = O.shape
    return RecPOMDP(T.copy(), O.copy(), R.copy(), start.copy(), discount,
                    actions=['a%d' % i for i in range(na)],
                    observations=['o%d' % i for i in range(no)],
                    states=['s%d' % i for i in range(nstates)])


def recording_horizon(ns, rec, make_inner):
    """Generator of horizons that delegate to real ones and are observed."""

    class RecHorizon(ns.pomcp.Horizon):

        def __init__(self, inner=None):
            self.inner = make_inner() if inner is None else inner
            self.main = inner is None
            self.index = None
            if self.main and threads.KERNEL is not None:
                threads.KERNEL.point('horizon')

        def is_reached(self):
            return self.inner.is_reached()

        def decrement(self, a, s, new_s, o):
            rec.on_decrement(self, a, s, new_s, o)
            self.inner.decrement(a, s, new_s, o)

        def copy(self):
            c = RecHorizon(self.inner.copy())
            c.index = rec.on_copy(self)
            return c

        @classmethod
        def generator(cls, model):
            return cls._Generator(cls)

    return RecHorizon


def _edges_now(sim):
    """Edges of the tree along a simulation, at that moment."""
    edges = []
    node = sim.node
    for (a, _, _, o, _) in sim.steps:
        anode = node.children[a]
        if anode is None or o not in anode.children:
            break
        edges.append((anode, o))
        node = anode.children[o]
    return edges


def instrument_tree_class(rec, cls):
    """Observes the public entry points of a search tree class."""
    orig_sim = cls.simulate_from_node
    orig_get = cls.get_node

    def simulate_from_node(self, node, action=None):
        t = rec.tid()
        rec.enter('a simulation starts')
        if t in rec.running:
            raise HarnessError('nested simulation')
        sim = Sim(node, action, t, len(rec.sims))
        if rec.on_sim_start is not None:
            rec.on_sim_start(sim)
        rec.pending.pop(t, None)
        rec.running[t] = sim
        try:
            r = orig_sim(self, node, action=action)
            sim.status = 'done'
            sim.edges = _edges_now(sim)
            return r
        except Exception:
            sim.status = 'aborted'
            sim.edges = _edges_now(sim)
            raise
        finally:
            if sim.status != 'running':
                rec._flush(t)
                rec.running.pop(t, None)
                rec.sims.append(sim)
                rec.ctx.event(sim.status, sim)
                if rec.on_sim_end is not None:
                    rec.on_sim_end(sim)

    def get_node(self, history):
        rec.enter('a lookup of the node for a history')
        return orig_get(self, history)

    rec.ctx.patch(cls, 'simulate_from_node', simulate_from_node)
    rec.ctx.patch(cls, 'get_node', get_node)


# Reference ------------------------------------------------------------------

class RefHorizon:
    """Independent statement of when a simulation must stop."""

    def __init__(self, kind, n, model=None):
        self.kind, self.n, self.model = kind, n, model

    def left(self, steps):
        """Whether transitions may still be made after these."""
        if self.kind == 'transitions':
            return len(steps) < self.n
        if self.kind == 'finished':
            if len(steps) >= self.n:
                return False
            return not (steps and self._final(steps[-1][2]))
        if self.kind == 'htm':
            n = 0
            for (_, s, s2, _, _) in steps:
                if self._htm(s) != self._htm(s2):
                    n += 1
                if self._final(s2):
                    return False
            return n < self.n
        raise HarnessError(self.kind)

    def _htm(self, s):
        return s >> (self.model.shift)

    def _final(self, s):
        return self._htm(s) == self.model.final_htm


class RefTree:
    """Reference statistics, fed with observed simulations one by one."""

    ALPHA = .001

    def __init__(self, fail, tree, discount, exploration, relative,
                 rollout_it, horizon, n_actions, check_selection=True):
        self.fail = fail
        self.tree = tree
        self.discount = discount
        self.exploration = exploration
        self.relative = relative
        self.rollout_it = rollout_it
        self.horizon = horizon
        self.n_actions = n_actions
        self.stats = {}       # id(node) -> [n, value]
        self.keep = []        # keeps the objects alive: ids stay unique
        self.edges = set()    # (id(action node), observation)
        self.check_selection = check_selection
        self.n_applied = 0
        self.greedy_picks = 0
        self.untried_picks = 0
        self.max_depth = 0
        self.skipped = 0
        self.ended_in_tree = 0

    def stat(self, node):
        s = self.stats.get(id(node))
        if s is None:
            s = self.stats[id(node)] = [0, 0.]
            self.keep.append(node)
        return s

    def value(self, node):
        return self.stat(node)[1]

    def _update(self, node, x):
        s = self.stat(node)
        n, v = s
        s[1] = (1 - self.ALPHA) * (n * v + x) / (n + 1) + self.ALPHA * x
        s[0] = n + 1

    def add_history(self, history, root):
        """Edges that exist because the caller stepped through them."""
        node = root
        for i in range(0, len(history), 2):
            anode = node.children[history[i]]
            if anode is None:
                self.fail('lost-node', 'no node for the history')
            o = history[i + 1]
            self.stat(anode)
            self.edges.add((id(anode), o))
            node = anode.children[o]
            self.stat(node)
        return node

    def untried(self, node):
        return [a for a in range(self.n_actions)
                if node.children[a] is None or
                self.stat(node.children[a])[0] == 0]

    def best(self, node, exploration, relative):
        """Set of acceptable actions at this node now."""
        untried = self.untried(node)
        if untried:
            return untried
        vals = [self.value(node.children[a]) for a in range(self.n_actions)]
        ns = [self.stat(node.children[a])[0] for a in range(self.n_actions)]
        c = exploration
        if relative and exploration > 0:
            c = exploration * (max(vals) - min(vals))
        n = self.stat(node)[0]
        sc = [v + (c * math.sqrt(math.log(n) / k) if c else 0.)
              for v, k in zip(vals, ns)]
        top = max(sc)
        return [a for a in range(self.n_actions)
                if sc[a] >= top - 1e-7 * max(1., abs(top))]

    def apply(self, sim):
        if sim.status == 'aborted':
            # creates at most unvisited nodes
            for anode, o in sim.edges:
                self.stat(anode)
                self.edges.add((id(anode), o))
            return
        node = sim.node
        done = []
        path = []
        new = False
        leaf = None
        if not sim.steps:
            if self.horizon.left([]):
                self.fail('horizon', 'a simulation made no transition: ' +
                          str(sim))
            return
        for i, (a, s, s2, o, r) in enumerate(sim.steps):
            if new:
                self.fail('expansion', 'a simulation went on past the node it '
                          'added: ' + str(sim))
            if not self.horizon.left(done):
                self.fail('horizon', 'a simulation went on past its horizon: '
                          + str(sim))
            if i > 0 and sim.steps[i - 1][2] != s:
                self.fail('trajectory', 'transition {} of a simulation does '
                          'not start where the previous one ended: {}'.format(
                              i, sim))
            if i == 0 and sim.action is not None:
                if a != sim.action:
                    self.fail('first-action', 'a simulation asked to start '
                              'with action {} started with {}'.format(
                                  sim.action, a))
            elif self.check_selection:
                ok = self.best(node, self.exploration, self.relative)
                if a not in ok:
                    self.fail('selection', 'step {} of {} chose action {} '
                              'where the search rule allows {} (stats {})'
                              .format(i, sim, a, ok, self._describe(node)))
                if self.untried(node):
                    self.untried_picks += 1
                else:
                    self.greedy_picks += 1
            anode = node.children[a]
            if anode is None:
                self.fail('lost-node', 'no node left for action {} of {}'
                          .format(a, sim))
            path.append((node, anode, r))
            done.append(sim.steps[i])
            if (id(anode), o) not in self.edges:
                new = True
                # a step may have added the node since
                if len(sim.edges) > i:
                    leaf = anode.children.get(o)
                if leaf is not None:
                    self.stat(anode)
                    self.stat(leaf)
                    self.edges.add((id(anode), o))
            else:
                node = anode.children.get(o)
                if node is None:
                    self.fail('lost-node', 'the node for observation {} '
                              'vanished: {}'.format(o, sim))
        self.max_depth = max(self.max_depth, len(sim.steps))
        if new:
            if leaf is None:
                self.skipped += 1
                partial = 0.
                if sim.rollouts:
                    self.fail('expansion', 'rollouts without a node: ' +
                              str(sim))
            elif not self.horizon.left(done):
                partial = 0.
                if any(sim.rollouts):
                    self.fail('horizon', 'rollout past the horizon: ' +
                              str(sim))
            else:
                partial = self._rollouts(sim, done, leaf)
        else:
            if self.horizon.left(done):
                self.fail('horizon', 'a simulation stopped before its horizon '
                          'without adding a node: ' + str(sim))
            if any(sim.rollouts):
                self.fail('horizon', 'rollout past the horizon: ' + str(sim))
            self.ended_in_tree += 1
            partial = self.value(node)
        for node, anode, r in reversed(path):
            partial = r + self.discount * partial
            self._update(anode, partial)
            self._update(node, partial)
        self.n_applied += 1

    def _rollouts(self, sim, done, leaf):
        if len(sim.rollouts) != self.rollout_it:
            self.fail('rollouts', '{} rollouts instead of {}: {}'.format(
                len(sim.rollouts), self.rollout_it, sim))
        support = leaf.belief.array
        total = 0.
        for ro in sim.rollouts:
            so_far = list(done)
            g = 1.
            for i, (a, s, s2, o, r) in enumerate(ro):
                if i == 0 and not support[s] > 0:
                    self.fail('trajectory', 'a rollout starts from state {} '
                              'which has no belief at its node'.format(s))
                if i > 0 and ro[i - 1][2] != s:
                    self.fail('trajectory', 'a rollout jumps between states: '
                              '{}'.format(ro))
                if not self.horizon.left(so_far):
                    self.fail('horizon', 'a rollout went on past the horizon: '
                              '{}'.format(ro))
                so_far.append(ro[i])
                total += g * r
                g *= self.discount
            if self.horizon.left(so_far):
                self.fail('horizon', 'a rollout stopped after {} transitions, '
                          'before the horizon ({} done in the tree)'.format(
                              len(ro), len(done)))
        x = total / self.rollout_it
        self._update(leaf, x)
        return x

    def _describe(self, node):
        return [(self.stat(c)[0], round(self.stat(c)[1], 6))
                if c is not None else None for c in node.children]

    def compare(self, where=''):
        """The real tree shows exactly the reference statistics."""
        seen = set()
        stack = [(self.tree.root, ())]
        visited = 0
        while stack:
            node, path = stack.pop()
            if id(node) in seen:
                continue
            seen.add(id(node))
            self._same(node, path, where)
            visited += 1
            for a, anode in enumerate(node.children):
                if anode is None:
                    continue
                p = path + ('a%d' % a,)
                seen.add(id(anode))
                self._same(anode, p, where)
                for o, child in anode.children.items():
                    stack.append((child, p + ('o%d' % o,)))
        for node in self.keep:
            if id(node) not in seen and self.stats[id(node)][0] > 0:
                self.fail('lost-node', 'a node with {} visits is no longer '
                          'reachable from the root {}'.format(
                              self.stats[id(node)][0], where))
        return visited

    def _same(self, node, path, where):
        n, v = self.stats.get(id(node), (0, 0.))
        if node.n_simulations != n:
            self.fail('visit-count', 'node {}: {} visits where the completed '
                      'simulations made {} {}'.format(
                          '/'.join(path) or 'root', node.n_simulations, n,
                          where))
        if not close(node.value, v):
            self.fail('value', 'node {}: value {!r} where the completed '
                      'simulations give {!r} ({} visits) {}'.format(
                          '/'.join(path) or 'root', node.value, v, n, where))
