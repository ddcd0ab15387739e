"""C35: sample experiments carry out the configuration they are launched
with."""
import contextlib
import inspect
import io
import itertools
import json
import os
import shutil
import sys
import tempfile

import numpy as np

from checks import c09
from sim import episodes, fsio, htm, loader, popen, supspec
from sim.core import SimCrash

ID = 'C35'
RUNS = {'quick': 900, 'thorough': 20000}
TECHNIQUE = ('deterministic simulation of the sample launchers and job '
             'scripts, end to end over simulated worker processes, storage '
             'and process ages, with interruptions and restarts; oracle is a '
             'statement of each experiment\'s tasks and policies and the '
             'relational specification of the model')
RULE = ('one of the three launchers, one of the configurations it prepares '
        'with smaller numbers, other documented parameters, or an unknown '
        'task or policy; the job is interrupted by a storage fault, a killed '
        'worker or a crash and run again; tables and figures are drawn from '
        'random results; non-trivial: an episode of at least two transitions '
        'was published')
COMPONENTS = {
    'real': ['samples/supportive_evaluation_{pomcp,preference,multitask}.py '
             'and their job scripts', 'task_models.evaluation',
             'task_models.supportive', 'task_models.policy',
             'task_models.lib.pomcp', 'task_models.utils.plot', 'matplotlib '
             '(drawing to memory)'],
    'stub': ['expjobs (Launcher, Job)', 'raw file layer under the scratch '
             'directory', 'time', 'ps', 'multiprocessing']}
ASSUMPTIONS = ['a worker killed in the middle of writing a large result is '
               'the known finding of C10 and not injected here',
               'a published result is read with json',
               'evaluations may fail when a belief lost the history']
PROBES = ('pomcp', 'preference', 'multitask', 'always-hold', 'never-hold',
          'repeat', 'random', 'task-sequence', 'task-uniform',
          'task-alternative', 'intermediate-rewards', 'htm-horizon',
          'debug', 'prepared-before', 'refused', 'run-again', 'old-result',
          'table', 'figure', 'for-print',
          'lost-belief', 'ended')
KINDS = ('enospc', 'eio', 'close-error', 'open-denied', 'crash', 'power-loss',
         'torn-block')
FAULTS = tuple('disk-' + k for k in KINDS) + (
    'kill-before-put', 'kill-unflushed', 'start-failure')
LEG = [('U', 'joints'), ('C', 'leg'), ('U', 'screwdriver'), ('U', 'screws')]
TOP = [('U', 'screwdriver'), ('U', 'screws')]


def setup():
    loader.load()
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot
    import matplotlib.patches


_code = {}


def execute(name, where):
    """Runs a sample script as a program."""
    path = os.path.join(loader.REPO, 'samples', name)
    if path not in _code:
        with open(path, 'rb') as f:
            _code[path] = compile(f.read(), path, 'exec')
    exec(_code[path], {'__name__': '__main__',
                       '__file__': os.path.join(where, 'samples', name)})


# What the experiments say they do ---------------------------------------------

def task(script, p):
    """Legal sequences of (name, hold, conditions)."""
    leg = 'Assemble leg-{}'.format
    if script == 'pomcp':
        return [sum([[(leg(i), 'h', LEG),
                      (leg(i) + ' to top', 'v',
                       ([('C', 'top')] if i == 0 else []) + TOP)]
                     for i in range(4)], [])]
    if script == 'preference':
        return [[('Assemble leg', 'h', LEG)]]
    kind = p.get('task', 'alternative')
    if kind == 'sequence':
        return [[(leg(i), 'h', LEG) for i in range(p.get('n_subtasks', 20))]]
    ws = {'uniform': [''.join(w) for w in itertools.product('hv', repeat=4)],
          'alternative': ['hvvv', 'hhhh', 'vhhv', 'vvhv']}[kind]
    return [[('Assemble leg', h, LEG) for h in w] for w in ws]


class Sample(supspec.Spec):
    """The model of the experiment, by its task and rewards."""

    def __init__(self, model, words):
        ns = loader.load()
        code = {'U': ns.supportive.USES, 'C': ns.supportive.CONSUMES}
        kinds = []
        for w in words:
            kinds.extend(k for k in w if k not in kinds)
        leaves = [htm.LeafSpec(h, [(code[c], o) for c, o in conds])
                  for _, h, conds in kinds]
        spec = ('alt', [('seq', [('leaf', kinds.index(k)) for k in w])
                        for w in words])
        self.bad = None
        nodes = []
        for n in model.htm_nodes:
            k = [i for i, x in enumerate(kinds)
                 if (x[0], x[1]) == (n.action.name, n.action.hold)]
            if not k:
                self.bad = '{} ({})'.format(n.action.name, n.action.hold)
                return
            nodes.append(k[0])
        knobs = {k: getattr(model, k) for k in supspec.DEFAULTS}
        super(Sample, self).__init__(model, spec, leaves, knobs, nodes)


# ------------------------------------------------------------------------------

def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    saved = {k: sys.modules.get(k) for k in loader.expjobs_modules}
    sys.modules.update(loader.expjobs_modules)
    argv = sys.argv
    try:
        Scenario(ctx, ns, root).run()
    finally:
        sys.argv = argv
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        shutil.rmtree(root, ignore_errors=True)


class Scenario:

    def __init__(self, ctx, ns, root):
        self.ctx, self.ch, self.ns, self.root = ctx, ctx.ch, ns, root
        self.log = episodes.Log()
        self.made, self.planners, self.warm = [], [], []
        self.longest = 0

    def run(self):
        ctx, ch = self.ctx, self.ch
        self.script = ch.weighted([(2, 'pomcp'), (3, 'preference'),
                                   (3, 'multitask')])
        ctx.probe(self.script)
        self.spy()
        started = []
        ctx.patch(loader.Launcher, 'on_run', staticmethod(started.append))
        execute('supportive_evaluation_{}.py'.format(self.script), self.root)
        ctx.check(len(started) == 1, 'launcher', lambda: '{} launchers '
                  'run'.format(len(started)))
        self.launcher = L = started[0]
        from types import SimpleNamespace
        L.args = SimpleNamespace(path=self.root, plot_destination=None)
        L.init_jobs()
        ctx.check(L.jobs and set(L.jobs) == set(L.exps), 'launcher', lambda:
                  'jobs {} and experiments {}'.format(
                      sorted(L.jobs), sorted(L.exps)))
        self.advertised(L)
        mode = ch.weighted([(11, 'job'), (1, 'table')])
        if mode == 'table':
            return self.table(L)
        self.job(L)

    def spy(self):
        ctx, sc = self.ctx, self
        E = self.ns.evaluation.SupportiveExperiment
        init = E.__init__

        def made(self, *args, **kwargs):
            init(self, *args, **kwargs)
            sc.made.append(self)

        ctx.patch(E, '__init__', made)
        P = self.ns.pomcp.POMCPPolicyRunner
        pinit = P.__init__
        sig = inspect.signature(pinit)

        def planner(self, *args, **kwargs):
            b = sig.bind(self, *args, **kwargs)
            b.apply_defaults()
            sc.planners.append(dict(b.arguments))
            kwargs.setdefault('logger', lambda *a, **k: None)
            return pinit(self, *args, **kwargs)

        ctx.patch(P, '__init__', planner)
        for cls in (P, self.ns.policy.PolicyLongSupportiveSequence):
            ctx.patch(cls, 'get_action', self.asked(vars(cls)['get_action']))
        M = self.ns.supportive.SupportivePOMDP
        ctx.patch(M, 'sample_transition', self.counted(
            vars(M)['sample_transition']))

    def asked(self, f):
        def get_action(me, *args, **kwargs):
            self.warm.append(args[0] if args else kwargs.get('iterations'))
            return f(me, *args, **kwargs)
        return get_action

    def counted(self, f):
        def sample_transition(me, *args, **kwargs):
            self.log.calls += 1
            return f(me, *args, **kwargs)
        return sample_transition

    def advertised(self, L):
        """The launchers prepare the comparisons they are for."""
        ctx = self.ctx
        ps = list(L.exps.values())
        if self.script == 'multitask':
            want = {(t, p) for t in ('sequence', 'uniform', 'alternative')
                    for p in ('pomcp', 'repeat', 'random')}
            got = [(p.get('task'), p.get('policy')) for p in ps]
        elif self.script == 'preference':
            want = {(round(.05 * i, 6), p) for i in range(21)
                    for p in ('pomcp', 'always-hold', 'never-hold')}
            got = [(round(float(p['p_preference']), 6), p.get('policy'))
                   for p in ps]
        else:
            got = sorted(p.get('horizon-type', 'it') + ' %s %s %s %s' % (
                p.get('horizon-length'), p.get('intermediate-rewards'),
                p.get('iterations'), p.get('rollout-iterations')) for p in ps)
            want = set(got)
            ctx.check(len(want) > 60 and any('htm' in x for x in want),
                      'launcher', 'the planner is not compared over horizons')
        ctx.check(len(got) == len(want) and set(got) == want, 'launcher',
                  lambda: 'the experiments are {}'.format(sorted(got)))

    # A job

    def parameters(self, base):
        ch, ctx = self.ch, self.ctx
        p = dict(base)
        p.update({'n_warmup': ch.between(1, 4),
                  'n_evaluations': ch.between(1, 3),
                  'iterations': ch.between(1, 3),
                  'n_particles': ch.between(5, 15)})
        if self.script == 'pomcp':
            # (its episodes are the longest)
            p['n_evaluations'] = ch.between(1, 2)
            p['iterations'] = ch.between(1, 2)
        if 'rollout-iterations' in p:
            p['rollout-iterations'] = ch.between(1, 2)
        if 'horizon-length' in p or ch.chance(.7):
            p['horizon-length'] = ch.between(1, 3)
        elif p.get('policy', 'pomcp') == 'pomcp':
            p['horizon-length'] = 4
        if p.get('task') == 'sequence':
            if ch.chance(.8):
                p['n_subtasks'] = ch.between(1, 4)
        if ch.chance(.2):
            p['p_change_preference'] = ch.pick([0., 1., .25])
        if ch.chance(.2) and self.script == 'pomcp':
            p['p_preference'] = ch.pick([0., 1.])
        if ch.chance(.2):
            p['exploration'] = ch.pick([1, 7.5])
        if ch.chance(.1):
            p['relative-explo'] = True
        self.refused = self.debug = self.alone = False
        if ch.chance(.06):
            ctx.probe('debug')
            self.debug = True
            p['n_warmup'], p['iterations'] = 10 ** 6, 10 ** 6
        if ch.chance(.08) and self.script != 'pomcp':
            self.refused = True
            k = ch.pick(['policy', 'task'] if self.script == 'multitask'
                        else ['policy'])
            p[k] = ch.pick(['none', '', 'hold', 'Random'])
        if p.get('intermediate-rewards'):
            ctx.probe('intermediate-rewards')
        if p.get('horizon-type') == 'htm':
            ctx.probe('htm-horizon')
        return p

    def job(self, L):
        ctx, ch = self.ctx, self.ch
        name = ch.pick(sorted(L.jobs))
        params = self.parameters(L.exps[name])
        L.exps = {name: params}
        job = L.jobs[name]
        script = os.path.basename(job.script)
        ctx.check(job.path == self.root and job.name == name and
                  os.path.realpath(job.script) == os.path.realpath(
                      os.path.join(self.root, 'samples', script)),
                  'launcher', lambda: 'job {} {} {}'.format(
                      job.path, job.name, job.script))
        ctx.event(script, name, sorted(params.items()))
        self.path = os.path.join(self.root, name + '.json')
        old = None
        with fsio.FaultFS(ctx, self.root) as fs:
            if ch.chance(.15):
                ctx.probe('prepared-before')
                L.exps = {name: dict(params, exploration=3, n_warmup=9)}
                L.action_prepare()
                L.exps = {name: params}
            L.action_prepare()
            if ch.chance(.2):
                ctx.probe('old-result')
                old = {'evaluations': [{'return': 1.5, 'elapsed-time': 3.,
                                        'simulator-calls': 12}] * 9}
                with open(self.path, 'w') as f:
                    json.dump(old, f)
            fault = ch.weighted([(3, None), (2, 'disk'), (1, 'worker')])
            if fault == 'disk':
                fs.arm(ch.pick(KINDS), ch.pick([0, 1, ch.draw(2000)]))
            err, lost = self.attempt(fs, script, job, params, fault)
            if fault is None and not self.refused:
                ctx.check(err is None or lost, 'spurious', lambda: 'nothing '
                          'failed and the job raised {!r}'.format(err))
            if err is not None:
                self.after_failure(old, params)
                if self.refused:
                    ctx.probe('refused')
                    return
                ctx.probe('run-again')
                err, lost = self.attempt(fs, script, job, params, None)
                ctx.check(err is None or lost, 'no-recovery', lambda: 'run '
                          'again without a fault, the job raised {!r}'.format(
                              err))
                if err is not None:
                    return self.after_failure(old, params)
            ctx.check(not self.refused, 'accepted', lambda: 'task {} or '
                      'policy {} accepted'.format(params.get('task'),
                                                  params.get('policy')))
            got = self.read()
            ctx.check(got is not None, 'absent', 'the job ended and no result '
                      'can be read')
            self.complete(got, params)
            res = self.ns.evaluation.ExpLauncher.get_results_from_one(job)
            ctx.check([list(x) for x in res] == [
                [e[k] for e in got['evaluations']] for k in (
                    'return', 'elapsed-time', 'simulator-calls')], 'reader',
                lambda: 'the launcher reads {}'.format(res))
        ctx.nontrivial = self.longest >= 2
        ctx.sample = {'script': script, 'job': name, 'longest': self.longest}

    def attempt(self, fs, script, job, params, fault):
        """(error or None, whether an evaluation lost its belief)"""
        ctx, ch = self.ctx, self.ch
        del self.warm[:]
        self.log.clear()
        ps = episodes.make_ps(ctx, self.log)
        with c09.random_world(ctx) as w, popen.Programs(ctx, ps=ps):
            if fault == 'worker':
                w.plan[ch.draw(params['n_evaluations'])] = ch.pick(
                    ['kill-before-put', 'kill-unflushed', 'start-failure'])

            def child_setup(child):
                self.log.clear()
                child.report.append(self.log)

            w.child_setup = child_setup
            sys.argv = [script, job.config, job.path, job.name]
            if self.debug:
                sys.argv.insert(ch.pick([1, 4]), '--debug')
            err = None
            try:
                execute(script, self.root)
            except Exception as e:
                err = e
            except SystemExit as e:
                err = e if e.code else None
            except SimCrash as e:
                err = e
                fs.reboot()
            fs.disarm()
            ctx.event('outcome', type(err).__name__)
            lost = any('Impossible to sample' in str(x)
                       for p in w.procs for x in p.report
                       if isinstance(x, tuple))
            if lost:
                ctx.probe('lost-belief')
            self.workers = [p.report[0] for p in w.procs]
        return err, lost

    def read(self):
        try:
            with open(self.path, 'rb') as f:
                got = json.loads(f.read().decode())
        except (FileNotFoundError, ValueError):
            return None
        return got if isinstance(got, dict) else None

    def after_failure(self, old, params):
        got = self.read()
        if got is None or got == old:
            return
        self.ctx.check(not self.refused, 'accepted', 'a refused experiment '
                       'has a result')
        self.complete(got, params)

    # Oracle

    def complete(self, got, params):
        ctx = self.ctx
        exp = self.made[-1]
        model = exp.model
        full = dict(exp.DEFAULT_PARAMETERS)
        full.update(params)
        if self.debug:
            # quick, and otherwise the same experiment
            for k in ('n_warmup', 'n_evaluations', 'iterations',
                      'n_particles', 'horizon-length'):
                full[k] = got.get('parameters', {}).get(k)
                ctx.check(full[k] in range(1, 101), 'debug', lambda: 'with '
                          '--debug, {} is {}'.format(k, full[k]))
        ctx.check(got.get('parameters') == json.loads(json.dumps(full)),
                  'parameters', lambda: 'parameters {} instead of {}'.format(
                      got.get('parameters'), full))
        recs = got['evaluations']
        ctx.check(len(recs) == full['n_evaluations'], 'evaluations', lambda:
                  '{} evaluations instead of {}'.format(
                      len(recs), full['n_evaluations']))
        self.knobs(model, full)
        words = task(self.script, full)
        sp = Sample(model, words)
        ctx.check(sp.bad is None and len(set(sp.node_leaf)) == len(sp.leaves),
                  'task', lambda: 'the task is made of {}{}'.format(
                      [n.action.name for n in model.htm_nodes],
                      ', where {} is not asked for'.format(sp.bad)
                      if sp.bad else ''))
        how = full.get('policy', 'pomcp')
        if self.script == 'pomcp':
            how = 'pomcp'
        ctx.probe(how) if how != 'pomcp' else self.planner(full)
        if self.script == 'multitask':
            ctx.probe('task-' + full['task'])
        ctx.check(self.warm[:1] == [full['n_warmup']], 'warmup', lambda:
                  'the first exploration is of {} instead of {} '
                  'iterations'.format(self.warm[:1], full['n_warmup']))
        for rec in recs:
            self.episode(rec, sp, words, how)

    def knobs(self, model, full):
        ctx = self.ctx
        want = {}
        if self.script == 'multitask':
            want['p_preferences'] = [1.]
            want['p_change_preference'] = 0.
        else:
            want['p_preferences'] = [full['p_preference']]
            want['p_change_preference'] = full.get(
                'p_change_preference', 0. if self.script == 'preference'
                else self.ns.supportive.SupportivePOMDP.p_change_preference)
        if self.script == 'preference':
            # only the preference varies, and rewards do not depend on it
            want['p_changed_by_human'] = 0.
            want['reward_independent_preference'] = True
        if self.script == 'pomcp':
            ctx.check((model.r_subtask > 0) == bool(
                full['intermediate-rewards']), 'task', lambda: 'a subtask is '
                'worth {}'.format(model.r_subtask))
            # (the same total reward in both cases)
            total = model.r_subtask * 8 + model.r_final
            ctx.check(total in (110, 120), 'task', lambda: 'the task is worth '
                      '{}'.format(total))
        for k, v in want.items():
            ctx.check(getattr(model, k) == v, 'task', lambda: '{} is {} '
                      'instead of {}'.format(k, getattr(model, k), v))

    def planner(self, p):
        ctx = self.ctx
        k = self.planners[-1]
        h = k['horizon']
        h = h() if callable(h) and not hasattr(h, 'n') else h
        want = {'iterations': p['iterations'],
                'rollout_it': p['rollout-iterations'],
                'exploration': p['exploration'],
                'relative_exploration': p['relative-explo'],
                'belief_values': p['belief-values'], 'belief': 'particle'}
        got = {n: k[n] for n in want}
        want['particles'], want['horizon'] = (p['n_particles'],
                                              p['horizon-length'])
        got['particles'] = (k.get('belief_params') or {}).get('n_particles')
        got['horizon'] = h.n
        kind = self.ns.supportive.NHTMHorizon \
            if p['horizon-type'] == 'htm' else \
            self.ns.evaluation.FinishedOrNTransitionsHorizon
        ctx.check(got == want and isinstance(h, kind), 'parameters-used',
                  lambda: 'the planner is built with {} and {} instead of {}'
                  .format(got, type(h).__name__, want))

    def episode(self, rec, sp, words, how):
        ctx = self.ctx
        ss, acts = rec['states'], rec['actions']
        self.longest = max(self.longest, len(acts))
        limit = 15 if self.script == 'preference' else 200
        ctx.check(len(ss) == len(acts) + 1 == len(rec['rewards']) + 1 ==
                  len(rec['observations']) + 1, 'record', lambda: '{} states, '
                  '{} actions'.format(len(ss), len(acts)))
        ctx.check(abs(rec['return'] - sum(rec['rewards'])) < 1e-6, 'return',
                  lambda: 'return {} for rewards {}'.format(
                      rec['return'], rec['rewards']))
        h, prefs, _, _ = sp.decode(ss[0])
        pp = sp.k['p_preferences'][0]
        ctx.check(h < sp.clean and sp.node_leaf[h] in sp.firsts and (
            pp not in (0, 1) or prefs[0] == pp), 'start', lambda: 'an episode '
                  'starts in {}'.format(sp.show(ss[0])))
        path, again, last = [], 0, None
        for i, a in enumerate(acts):
            name = sp.actions[a]
            if name.startswith('hold'):
                again = again + 1 if name == last else 1
                last = name
                # (2 ** -59 by chance)
                ctx.check(how != 'random' or again < 60, 'policy', lambda:
                          'random does {} {} times in a row'.format(
                              name, again))
            s, s2 = ss[i], ss[i + 1]
            h = sp.decode(s)[0]
            ctx.check(h != sp.final, 'past-end', 'the episode goes on after '
                      'the end')
            ex = sp.explain(s, a, s2, rec['observations'][i],
                            rec['rewards'][i])
            ctx.check(ex is not None, 'transition', lambda: '{} in {} leads '
                      'to {} with {} and {}'.format(
                          sp.actions[a], sp.show(s), sp.show(s2),
                          sp.observations[rec['observations'][i]],
                          rec['rewards'][i]))
            if sp.decode(s2)[0] != h and h < sp.clean:
                path.append(sp.node_leaf[h])
            elif ex[1] in ('subtask', 'hold accepted') or \
                    ex[1] == 'unneeded-hold-accepted':
                path.append(sp.node_leaf[h])
            self.choice(how, sp, h, sp.actions[a])
        end = sp.decode(ss[-1])[0]
        over = end == sp.final
        ctx.check(over or len(acts) == limit, 'too-short', lambda: 'an '
                  'episode stops after {} transitions'.format(len(acts)))
        ctx.check(len(acts) <= limit, 'too-long', lambda: 'an episode takes '
                  '{} transitions'.format(len(acts)))
        legal = sp.words if end >= sp.clean else sp.prefixes
        ctx.check(tuple(path) in legal, 'task', lambda: 'the subtasks done '
                  'are {}, for the task {}'.format(path, words))
        if over:
            ctx.probe('ended')
        self.ctx.sim_time += len(acts)

    def choice(self, how, sp, h, a):
        """What the policies under comparison do."""
        if how == 'pomcp':
            return
        ctx = self.ctx
        ctx.check(a != 'ask hold', 'policy', lambda: how + ' asks')
        if how == 'never-hold':
            ctx.check(not a.startswith('hold'), 'policy', lambda:
                      'never-hold does ' + a)
        elif how in ('always-hold', 'repeat'):
            ctx.check(a != 'hold V', 'policy', lambda: how + ' does ' + a)
        if how != 'never-hold':
            ctx.check(a != 'wait' or h >= sp.clean, 'policy', lambda: how +
                      ' lets the human do a subtask alone')

    # Tables and figures

    def table(self, L):
        ctx, ch = self.ctx, self.ch
        n = ch.between(1, 4)
        self.data = {}
        for name, job in L.jobs.items():
            recs = [{'return': ch.pick([1., -2., 7.5]) * ch.between(1, 99),
                     'elapsed-time': 1. + ch.draw(50),
                     'simulator-calls': ch.draw(5000)} for _ in range(n)]
            self.data[name] = [[r[k] for r in recs] for k in (
                'return', 'elapsed-time', 'simulator-calls')]
            with open(os.path.join(self.root, name + '.json'), 'w') as f:
                json.dump({'evaluations': recs, 'parameters': {}}, f)
        ctx.event('table', n, len(self.data))
        import matplotlib
        from matplotlib import figure, pyplot as plt
        shown = []
        ctx.patch(plt, 'show', lambda *a, **k: shown.append(None))
        # (LaTeX, that saving would run, is not simulated)
        ctx.patch(figure.Figure, 'savefig',
                  lambda fig, name, *a, **k: shown.append(name))
        if self.script != 'pomcp' and ch.chance(.4):
            ctx.probe('for-print')
            L.args.plot_destination = self.root
        rc = dict(matplotlib.rcParams)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                L.action_plot()
            ctx.check(len(shown) == 1 and (shown[0] is None) == (
                L.args.plot_destination is None) and (
                    shown[0] is None or os.path.dirname(shown[0]) ==
                    self.root), 'figure', lambda: 'the figure is {}'.format(
                        'saved as {}'.format(shown) if shown else
                        'not shown'))
            axes = [a for i in plt.get_fignums()
                    for a in plt.figure(i).axes]
            if self.script == 'multitask':
                self.multitask(out.getvalue(), axes)
            else:
                self.curves(axes)
        finally:
            plt.close('all')
            matplotlib.rcParams.update(rc)
        ctx.probe('figure')
        ctx.nontrivial = True
        ctx.sample = {'figure': self.script, 'n': n}

    def multitask(self, text, axes):
        ctx = self.ctx
        lines = [l.strip() for l in text.splitlines() if l.strip()]
        ctx.probe('table')
        order = None
        for l in lines:
            if l.startswith('Policies'):
                order = [x.strip() for x in l.split(':', 1)[1].split(',')]
        ctx.check(order and sorted(order) == ['pomcp', 'random', 'repeat'],
                  'table', lambda: 'policies {}'.format(order))
        for t in ('sequence', 'uniform', 'alternative'):
            l = [x for x in lines if x.startswith(t)]
            got = [float(x) for x in l[0].split(':')[1].split()] if l else []
            want = [np.average(self.data['{}-{}'.format(t, p)][0])
                    for p in order]
            ctx.check(len(got) == 3 and np.allclose(got, want), 'table',
                      lambda: '{}: {} instead of {}'.format(t, got, want))
            ax = [a for a in axes if a.get_title().lower() == t]
            ctx.check(len(ax) == 1, 'figure', lambda: '{} figures for {}'
                      .format(len(ax), t))
            labels = [x.get_text() for x in ax[0].get_xticklabels()]
            for i, p in enumerate(labels):
                med = np.median(self.data['{}-{}'.format(t, p)][0])
                at = [l for l in ax[0].get_lines()
                      if len(l.get_xdata()) == 2 and
                      abs(np.mean(l.get_xdata()) - i - 1) < 1e-6 and
                      np.allclose(l.get_ydata(), med) and
                      l.get_xdata()[0] != l.get_xdata()[1]]
                ctx.check(at, 'figure', lambda: 'the median {} of {} on {} is '
                          'not drawn at its place'.format(med, p, t))

    def curves(self, axes):
        """Every curve drawn is the mean of results, over their abscissas."""
        ctx = self.ctx
        from matplotlib.collections import LineCollection, PolyCollection
        drawn, shades, bars = [], [], []
        for a in axes:
            for c in a.collections:
                if isinstance(c, PolyCollection):
                    shades += [q.vertices for q in c.get_paths()]
                elif isinstance(c, LineCollection):
                    bars.append(c.get_segments())
            for l in a.get_lines():
                drawn.append((np.asarray(l.get_xdata(), float),
                              np.asarray(l.get_ydata(), float), l))

        def there(xs, names, what, k=0, says=None, axis=None):
            ys = [np.mean(self.data[n][k]) for n in names]
            mine = [l for x, y, l in drawn if len(x) == len(xs) and
                    np.allclose(x, xs) and np.allclose(y, ys)]
            ctx.check(mine, 'figure', lambda: 'no curve shows {}'.format(what))
            # the legend and the axes say what it is
            said = [self.said(l) for l in mine]
            ctx.check(any(says in t for t, _ in said), 'figure', lambda: 'the '
                      'legend says that the curve of {} is {}'.format(
                          what, [t for t, _ in said]))
            if axis is not None:
                ctx.check(any(axis in t and ('calls' if k else 'return') in t
                              for _, t in said), 'figure', lambda: 'the '
                          'curve of {} is on axes called {}'.format(
                              what, [t for _, t in said]))
            # what surrounds curves is the deviation of the same results
            dev = [np.std(self.data[n][k]) for n in names]
            out = [(x, y + d * e) for x, y, e in zip(xs, ys, dev)
                   for d in (-1, 1)]
            ok = any(all(np.isclose(v, o).all(axis=1).any() for o in out)
                     and all(np.isclose(out, w).all(axis=1).any() for w in v)
                     for v in shades)
            ctx.check(ok or not shades, 'figure', lambda: 'the shade of the '
                      'curve of {} is not its deviation'.format(what))
            ok = any(len(b) == len(xs) and all(
                np.allclose(sorted(map(tuple, g)), sorted(o)) for g, o in zip(
                    b, zip(out[::2], out[1::2]))) for b in bars)
            ctx.check(ok or not bars, 'figure', lambda: 'the bars of the '
                      'curve of {} are not its deviation'.format(what))

        exps = self.launcher.exps
        if self.script == 'preference':
            for p in ('pomcp', 'always-hold', 'never-hold'):
                mine = sorted((float(e['p_preference']), n)
                              for n, e in exps.items() if e['policy'] == p)
                there([x for x, _ in mine], [n for _, n in mine], p, says=p)
            return
        for t in ('transitions', 'htm'):
            for r in (True, False):
                mine = sorted((e['horizon-length'], n)
                              for n, e in exps.items()
                              if e.get('horizon-type') == t and
                              e['intermediate-rewards'] == r)
                for k, what in ((0, 'returns'), (2, 'simulator calls')):
                    there([x for x, _ in mine], [n for _, n in mine],
                          '{} for horizons of {} {}'.format(
                              what, t, 'with subtask rewards' if r else ''),
                          k, 'subtask' if r else 'final',
                          {'transitions': 'number of transitions',
                           'htm': 'number of htm'}[t])
        rolls = set(e['rollout-iterations'] for e in exps.values()
                    if 'rollout-iterations' in e)
        for r in rolls:
            mine = sorted((e['iterations'], n) for n, e in exps.items()
                          if e.get('rollout-iterations') == r)
            there([x for x, _ in mine], [n for _, n in mine],
                  'returns for {} rollouts'.format(r), 0, str(r),
                  'number of iterations')

    def said(self, line):
        """Words of the legend for this colour, and what the axes are."""
        from matplotlib.colors import to_rgb
        words = []
        for a in line.axes.figure.axes:
            g = a.get_legend()
            if g is None:
                continue
            for h, t in zip(getattr(g, 'legend_handles', ()) or
                            getattr(g, 'legendHandles', ()), g.get_texts()):
                if hasattr(h, 'get_facecolor'):
                    c = np.atleast_2d(h.get_facecolor())
                    if not len(c) or not c[0][-1]:
                        c = np.atleast_2d(h.get_color())
                    c = tuple(c[0])
                else:
                    c = h.get_color()
                if np.allclose(to_rgb(c), to_rgb(line.get_color())):
                    words += t.get_text().lower().split()
        return words, ' '.join(
            [line.axes.get_xlabel(), line.axes.get_title()] + [
                a.get_ylabel() for a in line.axes.figure.axes]).lower()
