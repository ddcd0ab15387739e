"""C36: the sample programs publish what they solved, or fail visibly."""
import contextlib
import inspect
import io
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile
from types import SimpleNamespace

import numpy as np

from checks import c14, c15, c20, c30, c35
from sim import fsio, loader, models, planner, popen, solver, taskmodels
from sim.core import SimCrash

ID = 'C36'
RUNS = {'quick': 150, 'thorough': 12000}
TECHNIQUE = ('deterministic simulation of the sample programs end to end, '
             'over a simulated solver program and a failing storage, with '
             'restarts; oracles are an independent reading of the model the '
             'solver was given, of the policy it left, a reference filter '
             'and the search that was made')
RULE = ('one of seven sample programs, on its own task or on a drawn one, '
        'with drawn costs; the solver, the search and the storage are '
        'simulated and may fail at any point, then the program is run again; '
        'everything it leaves is judged; non-trivial: a complete output was '
        'judged')
COMPONENTS = {
    'real': ['samples/{icra_scenario2pomdp,htm2pomdp,tower_scenario,pomcp,'
             'supportive,snap_circuit_scenarii,test_hierarchies}.py',
             'task_models.{task,task_to_pomdp,bring_next_to_pomdp,'
             'tower_problem,stool_scenarios,supportive,snap_circuit,plot}',
             'task_models.lib.{pomdp,pomcp,belief}',
             'matplotlib (drawing to memory)'],
    'stub': ['pomdp-solve (simulated program)',
             'raw file layer under the scratch directory']}
ASSUMPTIONS = ['searches use fewer simulations than the programs ask for',
               'a simulated policy is drawn so that there are at most 1500 '
               'histories of ten observations',
               'a search or an episode may end because a belief lost the '
               'history']
ENDINGS = ('exit-status', 'killed', 'cannot-start', 'no-memory')
OUTPUTS = ('missing-alpha', 'missing-pg', 'missing-both', 'truncated-alpha',
           'truncated-pg', 'empty-pg', 'garbage-number', 'action-mismatch')
KINDS = ('enospc', 'eio', 'close-error', 'open-denied', 'crash', 'power-loss',
         'torn-block')
FAULTS = tuple('disk-' + k for k in KINDS) + tuple(
    'solver-' + k for k in ENDINGS) + tuple('output-' + k for k in OUTPUTS) + (
        'no-directory',)
PROBES = ('icra', 'htm', 'tower', 'pomcp', 'supportive', 'snap',
          'hierarchies', 'own-task', 'drawn-task', 'run-again', 'old-output',
          'old-kept', 'aborted', 'figure', 'lost-belief', 'listed',
          'grid', 'pairwise')
HORIZON = 10


def setup():
    loader.load()
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot
    import task_models.plot


FILES = {'policy': 'policy/json/%s.json',
         'trees': 'trajectories/json/trajectories.json',
         'visit': 'policy/json/from_beliefs.json'}


def run(ctx):
    ch = ctx.ch
    np.random.seed(ch.draw(1 << 16))
    root = os.path.realpath(tempfile.mkdtemp(dir=loader.scratch()))
    old_tmp = tempfile.tempdir
    level = logging.getLogger().level
    interactive = sys.modules['matplotlib'].is_interactive()
    try:
        os.mkdir(os.path.join(root, 'tmp'))
        os.mkdir(os.path.join(root, 'samples'))
        for d in ('policy', 'trajectories', 'pomcp'):
            # as in the repository
            if os.path.isdir(os.path.join(loader.REPO, 'visualization', d,
                                          'json')):
                os.makedirs(os.path.join(root, 'visualization', d, 'json'))
        tempfile.tempdir = os.path.join(root, 'tmp')
        kind = ch.weighted([(5, Icra), (3, Htm), (3, Tower), (3, Pomcp),
                            (2, Supportive), (1, Snap), (1, Hierarchies)])
        kind(ctx, root).run()
    finally:
        tempfile.tempdir = old_tmp
        logging.getLogger().setLevel(level)
        plt = sys.modules['matplotlib.pyplot']
        plt.close('all')
        plt.interactive(interactive)
        shutil.rmtree(root, ignore_errors=True)


class Program:
    """A sample program in its directory."""

    script = name = None

    def __init__(self, ctx, root):
        self.ctx, self.ch, self.root = ctx, ctx.ch, root
        self.ns = loader.load()
        self.out = ''
        ctx.probe(self.name)

    def path(self, what):
        return os.path.join(self.root, 'visualization', what)

    def execute(self):
        """Error or None."""
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                c35.execute(self.script, self.root)
        except SystemExit as e:
            return e if e.code else None
        except Exception as e:
            return e
        except SimCrash as e:
            return e
        finally:
            self.out = out.getvalue()

    def load(self, what):
        try:
            with open(self.path(what), 'rb') as f:
                return json.loads(f.read().decode())
        except (OSError, ValueError):
            return None

    def drawn(self, own):
        """The task of the program and its four costs."""
        ctx, ch = self.ctx, self.ch
        st = self.ns.stool_scenarios
        if ch.chance(own):
            ctx.probe('own-task')
            task = Parts(self.ns).stool()
        else:
            ctx.probe('drawn-task')
            task = drawn_task(ctx)
            ctx.patch(st, 'stool_task_sequential', task)
        costs = [1., 2., 2., 1.]
        for i, n in enumerate(('T_WAIT', 'T_ASK', 'T_TELL', 'C_INTR')):
            if ch.chance(.5):
                costs[i] = ch.pick([.5, 3., 7.25, 1.])
                ctx.patch(st, n, costs[i])
        return task, costs


# Programs around the solver ---------------------------------------------------


class Solver(solver.Solver):
    """Solves the model it is given, whatever its size."""

    model = None
    task = None

    def __init__(self, ctx, snap):
        self.snap = snap
        self.filter = c20.Ref(snap)
        super(Solver, self).__init__(ctx, (
            len(snap['states']), len(snap['actions']),
            len(snap['observations'])))

    def make_policy(self):
        for i in range(20):
            p = super(Solver, self).make_policy()
            if self.histories(p) <= 1500:
                return p
        # always the same action
        p.actions = [0] * len(p.actions)
        return p

    def histories(self, p):
        """Histories of ten observations with this policy."""
        v = np.array(p.numbers, float)
        ref, total = self.filter, 0
        for i in np.nonzero(self.snap['start'])[0]:
            b = np.zeros(len(self.snap['start']))
            b[i] = 1.
            level = {tuple(b): 1}
            for _ in range(HORIZON):
                new = {}
                for b, n in level.items():
                    a = p.actions[int(v.dot(b).argmax())]
                    for o in range(self.shape[2]):
                        c = ref.update(b, a, o)
                        if c is not None:
                            c = tuple(c)
                            new[c] = new.get(c, 0) + n
                level = new
                total += sum(level.values())
                if total > 1500:
                    return total
        return total


class Solving(Program):
    """Task to model to policy to trajectories."""

    def run(self):
        ctx, ch = self.ctx, self.ch
        model = self.expected()
        self.snap = snap = models.snapshot(model)
        names = (snap['states'], snap['actions'], snap['observations'])
        self.names = names
        self.sv = sv = Solver(ctx, snap)
        self.given = []
        sv.on_model = lambda text: c15.judge(
            ctx, model, snap, names, text, self.given)
        self.files = {k: v % self.policy if '%s' in v else v
                      for k, v in FILES.items()}
        old = {}
        if ch.chance(.4):
            ctx.probe('old-output')
            for k, f in self.files.items():
                old[k] = {'old': [k] * ch.draw(400)}
                with open(self.path(f), 'w') as g:
                    json.dump(old[k], g)
        with fsio.FaultFS(ctx, self.root) as fs, \
                popen.Programs(ctx, pomdp_solve=sv):
            fault = ch.weighted([(3, None), (2, 'solver'), (2, 'output'),
                                 (4, 'disk')])
            self.attempt(fs, fault, old)
            if self.err is not None:
                ctx.probe('run-again')
                self.attempt(fs, None, old)
        ctx.sim_time += 3. * len(self.given)
        ctx.sample = {'program': self.script, 'states': len(names[0]),
                      'fault': fault, 'depth': self.depth}

    depth = 0
    options = {'method': 'grid', 'n_iterations': 500}

    def attempt(self, fs, fault, old):
        ctx, ch, sv = self.ctx, self.ch, self.sv
        sv.reset()
        sv.ending = sv.output = None
        if fault == 'solver':
            sv.ending = ch.pick(ENDINGS)
        elif fault == 'output':
            sv.output = ch.pick(OUTPUTS)
        elif fault == 'disk':
            at = [0, ch.draw(300), ch.draw(3000), 10000, 200000]
            if self.sizes:
                at = [ch.draw(self.sizes)]
            fs.arm(ch.pick(KINDS), ch.pick(at))
        ctx.event(self.script, fault, sv.ending, sv.output)
        self.err = err = self.execute()
        fired = fs.fired
        if isinstance(err, SimCrash):
            fs.reboot()
        fs.disarm()
        fs.fired = False
        ctx.event('outcome', type(err).__name__)
        want = None
        if sv.called and sv.rc == 0 and sv.model_text is not None:
            want = solver.read_output(*(sv.left + sv.shape))
        if err is None:
            ctx.check(sv.called == 1, 'solved', lambda: 'the program ended '
                      'and the solver was run {} times'.format(sv.called))
            ctx.check(want is not None, 'accepted', lambda: 'the program '
                      'ended normally after a solver run that ended with {} '
                      'leaving {!r} and {!r}'.format(sv.rc, *sv.left))
            ctx.check(self.given, 'given', 'the solver was given no model')
            c14.check_options(ctx, sv, self.options)
        else:
            ctx.probe('aborted')
            expected = fired or fault in ('solver', 'output')
            ctx.check(expected, 'spurious', lambda: 'nothing failed and the '
                      'program raised {!r}'.format(err))
        if not isinstance(err, SimCrash):
            left = os.listdir(tempfile.tempdir)
            ctx.check(not left, 'left-behind', lambda: 'the program left {} '
                      'behind (outcome {!r})'.format(left, err))
        else:
            for x in os.listdir(tempfile.tempdir):
                p = os.path.join(tempfile.tempdir, x)
                (shutil.rmtree if os.path.isdir(p) else os.remove)(p)
        for k in ('policy', 'trees', 'visit'):
            got = self.load(self.files[k])
            if err is not None:
                if got is None or got == old.get(k):
                    if got is not None:
                        ctx.probe('old-kept')
                        continue
                    if want is None:
                        # it did not come to publishing
                        ctx.check(k not in old, 'destroyed', lambda: 'the '
                                  'solver failed and the former {} is '
                                  'gone'.format(self.files[k]))
                    continue
                ctx.check(want is not None, 'accepted', lambda: '{} is '
                          'replaced although the solver failed'.format(
                              self.files[k]))
            ctx.check(got is not None, 'absent', lambda: 'the program ended '
                      'and {} cannot be read'.format(self.files[k]))
            ctx.check(got != old.get(k), 'absent', lambda: 'the program '
                      'ended and {} is the former one'.format(self.files[k]))
            self.judge(k, got, want)
            old[k] = got
        if err is None:
            ctx.nontrivial = True
            self.judge_more(want)

    sizes = 0

    def judge_more(self, want):
        pass

    def judge(self, k, got, want):
        ctx = self.ctx
        actions, trans, values = want
        acts = [self.names[1][a] for a in actions]
        if k == 'policy':
            for key, w in (('actions', acts), ('transitions', trans),
                           ('values', values),
                           ('observations', list(self.names[2]))):
                ctx.check(got.get(key) == w, 'policy', lambda: 'the saved '
                          'policy has {} {} and the solver found {}'.format(
                              key, got.get(key), w))
            ok = c20.best(values, self.snap['start'])
            ctx.check(int(got['initial']) in ok, 'policy', lambda: 'the saved '
                      'policy starts at {} and the best nodes are {}'.format(
                          got.get('initial'), ok))
            return
        s = c20.Scenario.__new__(c20.Scenario)
        s.ctx, s.ch, s.snap = ctx, self.ch, self.snap
        s.ref, s.obs, s.depth = self.sv.filter, self.names[2], 0
        s.d = {'actions': acts, 'values': values}
        if k == 'trees':
            s.judge_trees(got, HORIZON)
        else:
            s.judge_visit(SimpleNamespace(
                init=int(got['initial']), values=got['values'],
                actions=got['actions'], observations=got['observations'],
                transitions=got['transitions']))
        self.depth = max(self.depth, s.depth)


class Icra(Solving):

    script, name, policy = 'icra_scenario2pomdp.py', 'icra', 'icra'

    def expected(self):
        task, costs = self.drawn(.35)
        return self.ns.task_to_pomdp.HTMToPOMDP(
            *costs, end_reward=.1, loop=False).task_to_pomdp(task)


def drawn_task(ctx):
    got = []
    ns = loader.load()
    H = ns.task.HierarchicalTask

    class Task(H):
        def __init__(self, *args, **kwargs):
            H.__init__(self, *args, **kwargs)
            got.append(self)

    ns.task.HierarchicalTask = Task
    try:
        taskmodels.random_collab(ctx, max_leaves=3, max_expanded=4)
    finally:
        ns.task.HierarchicalTask = H
    return got[0]


class Parts:
    """The two hierarchies of furniture."""

    def __init__(self, ns):
        self.t, self.t2p = ns.task, ns.task_to_pomdp

    def leaf(self, name, durations, **kw):
        return self.t.LeafCombination(self.t2p.CollaborativeAction(
            name, durations, **kw))

    def get(self, x):
        return self.leaf(x, (100., 20., 30.))

    def snap(self, x, fail=.1):
        return self.leaf('Snap ' + x, (5., 100., 100.), fail_probability=fail)

    def seq(self, *children):
        return self.t.SequentialCombination(list(children))

    def whole(self, hold, verb, fail):
        return self.t.HierarchicalTask(root=self.seq(
            self.seq(self.get('Get central frame'), hold),
            self.seq(*[self.seq(self.get(verb + x), self.snap(x, fail))
                       for x in ('left leg', 'right leg')]),
            self.leaf('Release central frame', (100., 1., 1.),
                      no_probability=.1),
            self.seq(self.get(verb + 'top'), self.snap('top'))))

    def chair(self):
        return self.whole(self.leaf('Start Hold central frame',
                                    (3., 10., 100.)), 'Get ', .1)

    def stool(self):
        return self.whole(self.leaf('Hold central frame', (.01, 15., 30.),
                                    fail_probability=.01), 'Bring ', .01)


class Htm(Solving):
    """The chair of samples/htm2pomdp.py."""

    script, name, policy = 'htm2pomdp.py', 'htm', 'test'

    def expected(self):
        self.ctx.probe('own-task')
        return self.ns.task_to_pomdp.HTMToPOMDP(
            1., 2., 2., 1., end_reward=.1, loop=False).task_to_pomdp(
                Parts(self.ns).chair())

    def judge_more(self, want):
        """The two figures."""
        ctx = self.ctx
        plt = sys.modules['matplotlib.pyplot']
        ctx.probe('figure')
        figs = [plt.figure(i) for i in plt.get_fignums()]
        ctx.check(len(figs) == 2, 'figures', lambda: '{} figures'.format(
            len(figs)))
        visit = self.load(self.files['visit'])
        acts = [self.names[1][a] for a in want[0]]
        for f, values, actions in zip(
                figs, (want[2], visit['values']), (acts, visit['actions'])):
            ax = f.axes[0]
            v = np.array(values, float)
            b = v - v.min()
            with np.errstate(all='ignore'):
                b = b / b.max(-1)[:, None]
            drawn = np.ma.filled(ax.collections[0].get_array().astype(float),
                                 np.nan).reshape(b.shape)
            ctx.check(np.allclose(drawn, b, equal_nan=True), 'figures',
                      'a figure does not show the relative values')
            got = [x.get_text() for x in ax.get_xticklabels()]
            ctx.check(got == list(self.names[0]), 'figures', lambda: 'states '
                      'labelled {}'.format(got))
            rows = [x.get_text() for x in ax.get_yticklabels()]
            ctx.check(rows == ['{}: {}'.format(i, a) for i, a in
                               enumerate(actions)], 'figures', lambda: 'rows '
                      'labelled {}'.format(rows))


ORDERS = [[2, 0, 4, 3, 1, 5], [2, 4, 0, 3, 5, 1], [0, 1, 2, 3, 4, 5],
          [0, 1, 4, 5, 2, 3], [2, 3, 0, 1, 4, 5], [2, 3, 4, 5, 0, 1]]


class Tower(Solving):

    script, name, policy = 'tower_scenario.py', 'tower', 'test'
    options = {'method': 'grid', 'grid_type': 'pairwise', 'n_iterations': 50}

    def expected(self):
        self.ctx.probe('own-task')
        t, bn = self.ns.task, self.ns.bring_next

        def step(x, order):
            return t.LeafCombination(bn.CollaborativeAction(
                '{}-{}'.format(x, '-'.join(map(str, order))), str(x)))

        task = t.AlternativeCombination([t.SequentialCombination(
            [step(x, o) for x in o]) for o in ORDERS], name='Alt')
        return bn.HTMToPOMDP(2., 8., 5., list('012345'), end_reward=50.,
                             loop=False).task_to_pomdp(
                                 t.HierarchicalTask(root=task))

    def judge_more(self, want):
        lines = [l for l in self.out.split('\n') if l.startswith('[')]
        self.ctx.check([json.loads(l) for l in lines] == ORDERS, 'listed',
                       lambda: 'the program lists {}'.format(lines))
        self.ctx.probe('listed')


# Programs around the search ---------------------------------------------------


class Tree:
    """The search as it is: what the export is compared with."""

    def __init__(self, runner):
        self.runner, self.model = runner, runner.tree.model
        self.stats, self.edges = {}, set()
        self.exploration = runner.tree.exploration
        self.seen = []
        todo = [runner.tree.root]
        while todo:
            n = todo.pop()
            if id(n) in self.stats:
                continue
            self.stats[id(n)] = (n.n_simulations, n.value)
            self.seen.append(n)
            for c in n.children:
                if c is None:
                    continue
                self.stats[id(c)] = (c.n_simulations, c.value)
                for o, x in c.children.items():
                    self.edges.add((id(c), o))
                    todo.append(x)

    def untried(self, node):
        return [a for a, c in enumerate(node.children)
                if c is None or not c.n_simulations]

    def best(self, node, exploration, relative):
        un = self.untried(node)
        tried = [a for a in range(len(node.children)) if a not in un]
        if not tried:
            return un
        m = max(node.children[a].value for a in tried)
        ok = [a for a in tried if planner.close(node.children[a].value, m)]
        return ok + un


class Exported:
    """What a search looks like to the judge of exports."""

    def __init__(self, ctx, runner, belief, sharing, relative):
        self.ctx, self.runner = ctx, runner
        self.model = runner.tree.model
        self.ref = Tree(runner)
        self.n_obs = len(self.model.observations)
        self.belief, self.sharing, self.relative = belief, sharing, relative

    def fail(self, tag, msg):
        self.ctx.violate(tag, msg)


class Searching(Program):

    def run(self):
        ctx, ch = self.ctx, self.ch
        self.prepare()
        self.spy()
        f = os.path.join('pomcp', 'json', 'pomcp.json')
        here = os.path.isdir(os.path.dirname(self.path(f)))
        old = None
        if here and ch.chance(.3):
            ctx.probe('old-output')
            old = {'old': [1] * ch.draw(300)}
            with open(self.path(f), 'w') as g:
                json.dump(old, g)
        fault = ch.weighted([(3, None), (3, 'disk')])
        if here and fault is None and ch.chance(.1):
            fault = 'no-directory'
            shutil.rmtree(os.path.dirname(self.path(f)))
            ctx.fault(fault)
        with fsio.FaultFS(ctx, self.root) as fs:
            err = self.attempt(fs, fault, f, old)
            if err is not None:
                ctx.probe('run-again')
                if fault == 'no-directory':
                    os.makedirs(os.path.dirname(self.path(f)))
                self.attempt(fs, None, f, old)
        ctx.sample = {'program': self.script, 'fault': fault}

    def attempt(self, fs, fault, f, old):
        ctx, ch = self.ctx, self.ch
        if fault == 'disk':
            fs.arm(ch.pick(KINDS), ch.pick([0, ch.draw(300), ch.draw(20000)]))
        del self.runners[:]
        ctx.event(self.script, fault)
        err = self.execute()
        fired = fs.fired
        if isinstance(err, SimCrash):
            fs.reboot()
        fs.disarm()
        fs.fired = False
        ctx.event('outcome', type(err).__name__)
        got = self.load(f)
        lost = 'Impossible to sample' in str(err)
        if lost:
            ctx.probe('lost-belief')
        if err is not None:
            ctx.probe('aborted')
            ctx.check(fired or fault == 'no-directory' or lost, 'spurious',
                      lambda: 'nothing failed and the program raised {!r}'
                      .format(err))
            if got is None or got == old:
                if got is not None:
                    ctx.probe('old-kept')
                return err
            if lost:
                # the search went on after the first export
                return err
        ctx.check(got is not None and got != old, 'absent', lambda: 'the '
                  'program ended and {} cannot be read'.format(f))
        ctx.check(len(self.runners) == 1, 'runners', lambda: '{} policies '
                  'were searched'.format(len(self.runners)))
        r, args = self.runners[0]
        self.judge_model(r.tree.model)
        e = c30.Export(Exported(ctx, r, args.get('belief') or 'array',
                                bool(args.get('belief_values')),
                                bool(args.get('relative_exploration'))),
                       self.kind)
        e.document(got)
        ctx.nontrivial = ctx.nontrivial or e.entries >= 2
        if err is None:
            self.judge_more(r)
        return err

    runners = ()

    def spy(self):
        ctx, sc, ch = self.ctx, self, self.ch
        self.runners = []
        P = self.ns.pomcp.POMCPPolicyRunner
        init = P.__init__
        sig = inspect.signature(init)
        few = ch.between(1, 3)
        parts, length = ch.between(5, 20), ch.between(3, 12)

        def made(me, *args, **kwargs):
            b = sig.bind(me, *args, **kwargs)
            b.apply_defaults()
            a = b.arguments
            kw = a.pop('kwargs', {})
            asked = dict(a, **kw)
            for k, v in sc.stated.items():
                ctx.check(asked.get(k) == v, 'search', lambda: 'the search '
                          'has {} {!r} instead of {!r}'.format(
                              k, asked.get(k), v))
            if isinstance(a.get('iterations'), int):
                # (at least one for each action)
                n = [len(x.actions) for x in a.values()
                     if hasattr(x, 'sample_transition')]
                a['iterations'] = min(max(n) + few, a['iterations'])
            if isinstance(a.get('horizon'), int):
                a['horizon'] = min(length, a['horizon'])
            for d in (a, kw):
                if d.get('belief_params'):
                    d['belief_params'] = dict(d['belief_params'],
                                              n_particles=parts)
            sc.runners.append((me, dict(a, **kw)))
            a.pop('self', None)
            a = dict(a)
            a.update(kw)
            return init(me, **a)

        ctx.patch(P, '__init__', made)

    def prepare(self):
        pass


class Pomcp(Searching):

    script, name, kind = 'pomcp.py', 'pomcp', 'policy'
    stated = dict(iterations=100, horizon=100, exploration=1,
                  relative_exploration=True, belief_values=True)

    def judge_more(self, r):
        ctx = self.ctx
        nodes = [x for x in Tree(r).seen if hasattr(x, 'belief')]
        ctx.check('Found {} distinct beliefs.'.format(len(nodes)) in self.out,
                  'printed', lambda: 'the program prints {!r} after {} '
                  'beliefs'.format(self.out[-100:], len(nodes)))
        n = 100 * r.iterations
        ctx.check(r.tree.root.n_simulations >= n, 'search', lambda: '{} of {} '
                  'simulations are made'.format(r.tree.root.n_simulations, n))

    def prepare(self):
        task, costs = self.drawn(.1)
        self.model = models.snapshot(self.ns.task_to_pomdp.HTMToPOMDP(
            *costs, end_reward=1000., loop=False, reward_state=True,
            subtask_reward=100).task_to_pomdp(task))

    def judge_model(self, m):
        d = models.difference(m, self.model)
        self.ctx.check(d is None, 'model', lambda: 'the search is over '
                       'another model: {}'.format(d))


class Supportive(Searching):

    script, name, kind = 'supportive.py', 'supportive', 'quotient'
    stated = dict(iterations=1000, exploration=50, relative_exploration=False,
                  belief_values=False, belief='particle',
                  belief_params={'n_particles': 200})

    def judge_more(self, r):
        n = 10 * r.iterations
        self.ctx.check(r.tree.root.n_simulations >= n, 'search', lambda: '{} '
                       'of {} simulations are made'.format(
                           r.tree.root.n_simulations, n))

    def judge_model(self, m):
        got = [(n.action.name, n.action.hold, list(n.action.conditions))
               for n in m.htm_nodes]
        ns = self.ns.supportive
        code = {'U': ns.USES, 'C': ns.CONSUMES}
        words = c35.task('pomcp', {})
        want = [(n, h, [(code[c], o) for c, o in conds])
                for n, h, conds in words[0]]
        self.ctx.check(len(got) == len(want) and all(
            g[:2] == w[:2] and sorted(g[2]) == sorted(w[2])
            for g, w in zip(got, want)), 'model', lambda: 'the task is '
            '{}'.format(got))
        rewards = [m.r_subtask, m.r_preference, m.cost_hold, m.cost_get]
        self.ctx.check(rewards == [0., 20., 3., 20.], 'model', lambda:
                       'rewards and costs {}'.format(rewards))


# Programs that print ------------------------------------------------------------


class Printing(Program):

    def run(self):
        err = self.execute()
        self.ctx.check(err is None, 'spurious', lambda: 'the program raised '
                       '{!r}'.format(err))
        self.judge()
        self.ctx.nontrivial = True
        self.ctx.sample = {'program': self.script}


class Snap(Printing):
    """Three random L shapes on one board."""

    script, name = 'snap_circuit_scenarii.py', 'snap'

    def judge(self):
        ctx, ns = self.ctx, self.ns
        try:
            d = json.loads(self.out)
        except ValueError:
            ctx.violate('printed', 'no document is printed: {!r}'.format(
                self.out[:200]))
        nodes = {n['id']: n['value']['label'] for n in d['nodes']}
        ctx.check(len(nodes) == len(d['nodes']), 'printed', 'duplicate nodes')
        out = {}
        for l in d['links']:
            out.setdefault(l['u'], []).append((l['value']['label'], l['v']))
        # every way through places two parts and makes an L
        starts = [i for i in nodes if i not in {l['v'] for l in d['links']}]
        ctx.check(len(starts) == 1, 'printed', lambda: 'starts {}'.format(
            [nodes[i] for i in starts]))
        ends = [i for i in nodes if i not in out]
        ways = self.ways(out, starts[0], ())
        ctx.check(1 <= len(ends) <= 3 and 1 <= len({tuple(x for x, _ in w)
                                               for w in ways}) <= 3,
                  'printed', lambda: 'ends {}, ways {}'.format(ends, ways))
        B = (7, 10)
        Ls = {}
        S, P, A = (ns.snap_circuit.SnapCircuitState,
                   ns.snap_circuit.SnapCircuitPart,
                   ns.snap_circuit.PlaceAction)
        p0, p1 = P(0, '2'), P(1, '2')
        for x, y in itertools.product(range(B[0] - 2), range(B[1] - 1)):
            l0 = (x, y, ns.snap_circuit.NORTH)
            l1 = (x + 2, y, ns.snap_circuit.EAST)
            Ls[A(B, p0, l0).name, A(B, p1, l1).name] = [
                str(S(B, [(l0, p0)])), str(S(B, [(l0, p0), (l1, p1)]))]
        for w in ways:
            acts = tuple(a for a, _ in w if a in
                         {x for k in Ls for x in k})
            ctx.check(acts in Ls, 'printed', lambda: 'a way through places '
                      '{}'.format([a for a, _ in w]))

    def ways(self, out, n, path):
        if n not in out:
            return [path]
        self.ctx.check(len(path) < 8, 'printed', 'there are circles')
        return [w for a, m in out[n]
                for w in self.ways(out, m, path + ((a, m),))]


class Hierarchies(Printing):
    """Two chains in either order are one unordered pair."""

    script, name = 'test_hierarchies.py', 'hierarchies'

    def judge(self):
        ctx = self.ctx
        last = self.out.split('Compacted conjugate graph\n')
        ctx.check(len(last) == 2 and not last[1].strip(), 'printed', lambda:
                  'transitions remain: {!r}'.format(last[-1]))
        blocks = self.out.split('Conjugate graph:\n')[1:]
        steps = [{tuple(x.strip() for x in l.split(' -> '))
                  for l in b.split('\n\n')[0].split('\n') if ' -> ' in l}
                 for b in blocks]
        b, c = '(b1→b2→b3)', '(c1→c2)'

        def pair(x, y):
            return {('initial', x[0]), ('initial', y[0]),
                    (x[-1], y[0]), (y[-1], x[0]), (x[-1], 'terminal'),
                    (y[-1], 'terminal')} | set(zip(x, x[1:])) | set(
                        zip(y, y[1:]))

        B, C = ['b1', 'b2', 'b3'], ['c1', 'c2']
        ctx.check(len(steps) == 4 and steps[0] == pair(B, C) and
                  steps[1] in (pair([b], C), pair(B, [c])) and
                  steps[2] == pair([b], [c]), 'printed', lambda: 'the steps '
                  'are {}'.format(steps))
        both = {x for t in steps[3] for x in t} - {'initial', 'terminal'}
        ctx.check(both in ({'({}||{})'.format(b, c)},
                           {'({}||{})'.format(c, b)}) and steps[3] == {
            ('initial', min(both)), (min(both), 'terminal')}, 'printed',
            lambda: 'the hierarchy is {}'.format(steps[3]))
