"""C13: published experiment results are complete or recognisably absent."""
import inspect
import json
import os
import subprocess
import sys
import tempfile
import types

import numpy as np

from checks import c09
from sim import episodes, fsio, loader, popen, procs
from sim.core import InjectedFault, SimCrash

ID = 'C13'
RUNS = {'quick': 3500, 'thorough': 50000}
TECHNIQUE = ('deterministic simulation of experiment runs with failures of '
             'the model, the workers, ps and every byte of storage, and '
             'crashes; oracle compares what the project\'s reader gives with '
             'the log of the episodes really executed')
RULE = ('random task, policy and parameters (defaults, dictionary, parameter '
        'file written by the launcher, command line), one fault at a random '
        'place of the run or of a file, with or without an earlier result at '
        'the same path; non-trivial: a fault fired or two evaluations were '
        'read back')
COMPONENTS = {
    'real': ['task_models.evaluation', 'task_models.supportive',
             'task_models.policy', 'task_models.lib.pomcp',
             'task_models.utils.multiprocess', 'json', 'io text and buffer '
             'layers'],
    'stub': ['raw file layer under the scratch directory', 'time', 'ps',
             'multiprocessing.Process and Queue', 'expjobs.Launcher']}
ASSUMPTIONS = ['a worker killed in the middle of writing a large result is '
               'the known finding of C10 and not injected here',
               'an earlier result may stay in place when the run fails',
               'a write whose error is only reported at close may have '
               'reached the file']
PROBES = ('complete', 'raised', 'absent', 'unreadable', 'old-result-kept',
          'from-file', 'from-arguments', 'debug', 'pomcp', 'scripted',
          'default-parameters', 'config-damaged', 'refused-parameters', 'fault-after-data')
FAULTS = tuple('disk-' + k for k in fsio.WRITE_KINDS) + (
    'model-error', 'model-error-in-worker', 'ps-error', 'finish-error',
    'init-error', 'unserialisable', 'kill-before-put', 'kill-unflushed',
    'kill-holding-lock', 'kill-after-flush', 'start-failure')

WORKER_FAULTS = ('kill-before-put', 'kill-unflushed', 'kill-holding-lock',
                 'kill-after-flush', 'start-failure')


def setup():
    loader.load()


def plain(o):
    """Results as JSON values, independently of the project's encoder."""
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, (bool, str)) or o is None:
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o)
    return repr(o)


def random_parameters(ch, small=True):
    p = {'n_warmup': ch.between(1, 6), 'n_evaluations': ch.between(0, 4),
         'iterations': ch.between(1, 4), 'n_particles': ch.between(2, 6),
         'horizon-length': ch.between(1, 3)}
    if ch.chance(.5):
        p['horizon-type'] = ch.pick(['htm', 'transitions'])
    for k, vs in (('rollout-iterations', [1, 2]), ('exploration', [50, 2.5, 0]),
                  ('relative-explo', [True, False]),
                  ('belief-values', [True, False, False]),
                  ('p_preference', [.3, 1.]), ('policy', ['pomcp', 'é "\\']),
                  ('extra', [None, [1, 2], {'a': 1.5}])):
        if ch.chance(.3):
            p[k] = ch.pick(vs)
    return p


def run(ctx):
    ch = ctx.ch
    ns = loader.load()
    np.random.seed(ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        Scenario(ctx, ns, root).run()
    finally:
        import shutil
        shutil.rmtree(root, ignore_errors=True)


class Scenario:

    def __init__(self, ctx, ns, root):
        self.ctx, self.ch, self.ns, self.root = ctx, ctx.ch, ns, root
        self.log = episodes.Log()
        self.ev = ns.evaluation
        self.defaults = plain(self.ev.SupportiveExperiment.DEFAULT_PARAMETERS)
        self.made = []
        self.pol_kwargs = []
        self.warm = []

    def experiment_class(self, kind, stage):
        sc = self
        ctx, ch = self.ctx, self.ch
        model = episodes.make_model(ctx, self.log, stool=kind == 'scripted')
        self.model = model
        self.max_h = ch.pick([None, 3, 8])
        if kind != 'pomcp':
            policy = episodes.make_policy(ctx, model, kind)

        class Experiment(self.ev.SupportiveExperiment):

            EVALUATE_ARGUMENTS = ({} if sc.max_h is None else
                                  {'max_horizon': sc.max_h})

            def __init__(self, *args, **kwargs):
                super(Experiment, self).__init__(*args, **kwargs)
                sc.made.append(self)

            def init_run(self):
                if stage == 'init':
                    ctx.fault('init-error')
                    raise InjectedFault('init')
                self.model = model
                if kind == 'pomcp':
                    self.init_pomcp_policy()
                else:
                    self.policy = policy
                self.policy = Warm(sc, self.policy)

            def finish_run(self):
                if stage == 'finish':
                    ctx.fault('finish-error')
                    raise InjectedFault('finish')
                if stage == 'encode':
                    ctx.fault('unserialisable')
                    self.results['other'] = object()
                super(Experiment, self).finish_run()

        return Experiment

    def record_policies(self):
        cls = self.ns.pomcp.POMCPPolicyRunner
        orig = cls.__init__
        sig = inspect.signature(orig)
        sc = self

        def __init__(self, *args, **kwargs):
            b = sig.bind(self, *args, **kwargs)
            b.apply_defaults()
            sc.pol_kwargs.append(dict(b.arguments))
            kwargs.setdefault('logger', lambda *a, **k: None)
            return orig(self, *args, **kwargs)

        self.ctx.patch(cls, '__init__', __init__)

    def run(self):
        ctx, ch = self.ctx, self.ch
        self.unstarted = ctx.faults.get('start-failure', 0)
        self.record_policies()
        kind = ch.pick(['random', 'pomcp', 'scripted'])
        ctx.probe(kind) if kind != 'random' else None
        stage = ch.weighted([(4, None), (7, 'write'), (1, 'init'),
                             (2, 'warmup'), (2, 'evaluation'), (1, 'ps'),
                             (3, 'worker'), (1, 'finish'), (1, 'encode')])
        cls = self.experiment_class(kind, stage)
        name = 'exp'
        path = os.path.join(self.root, name + '.json')
        old = None
        with fsio.FaultFS(ctx, self.root) as fs, \
                c09.random_world(ctx) as w, \
                popen.Programs(ctx, ps=episodes.make_ps(ctx, self.log)) as pr:
            params, launch = self.configure(cls, fs, path, name)
            if launch is None:
                return
            if ch.chance(.3):
                old = {'evaluations': [
                    {'return': 1.5, 'elapsed-time': 3., 'simulator-calls': 12}
                ] * ch.between(1, 40), 'parameters': {}}
                with open(path, 'w') as f:
                    json.dump(old, f)
            full = dict(self.defaults, **plain(params))
            debug = self.debug
            n_eval = 2 if debug else full['n_evaluations']
            ctx.event('run', kind, stage, 'parameters', sorted(params.items(),
                                                               key=str))
            base = ch.pick([3., 4000.])
            broken = None
            if stage == 'evaluation' and n_eval:
                broken = ch.draw(n_eval)
            no_ps = None
            if stage == 'ps' and n_eval:
                no_ps = ch.draw(n_eval)
            if stage == 'worker' and n_eval:
                w.plan[ch.draw(n_eval)] = ch.pick(WORKER_FAULTS)

            def child_setup(child):
                i = child.proc._index
                self.log.clear()
                self.log.base = base + 7. * i
                child.report.append(self.log)
                if i == broken:
                    self.log.fault_in = ch.draw(4)
                if i == no_ps:
                    pr.handlers['ps'].fault = 'error'

            w.child_setup = child_setup
            if stage == 'warmup':
                self.log.fault_in = ch.draw(12)
            if stage == 'write':
                fs.arm(ch.pick(fsio.WRITE_KINDS),
                       ch.pick([0, 1, ch.draw(200), ch.draw(20000)]))
            err = None
            try:
                launch()
            except Exception as e:
                err = e
            except SimCrash as e:
                err = e
                fs.reboot()
            fired = fs.fired and fs.kind not in (None, 'short-writes') or \
                isinstance(err, SimCrash)
            fs.disarm()
            ctx.event('outcome', type(err).__name__,
                      't={:.2f}'.format(w.now))
            self.count_worker_faults(w, broken, no_ps)
            self.judge(w, err, stage, path, name, old, full, n_eval, debug,
                       kind, fired)
            # nothing of this run changes the defaults of the next
            now = plain(self.ev.SupportiveExperiment().parameters)
            ctx.check(now == self.defaults, 'defaults', lambda: 'the default '
                      'parameters became {}'.format(now))

    def count_worker_faults(self, w, broken, no_ps):
        for p in w.procs:
            if p._index == broken and p._out['code'] != 0:
                self.ctx.fault('model-error-in-worker')
            if p._index == no_ps and p._out['code'] != 0:
                self.ctx.fault('ps-error')

    def configure(self, cls, fs, path, name):
        """(overriding parameters, function running the experiment)"""
        ctx, ch = self.ctx, self.ch
        params = random_parameters(ch)
        how = ch.pick(['dict', 'file', 'arguments', 'default'])
        self.debug = how in ('default',) or ch.chance(.1)
        if self.debug:
            ctx.probe('debug')
        if how == 'default':
            ctx.probe('default-parameters')
            params = {}
        if how in ('dict', 'default'):
            exp = cls(params or None)
            exp.path = path
            return params, lambda: exp.run(debug=self.debug)
        ctx.probe('from-' + how)
        config = os.path.join(self.root, 'config.json')
        launcher = self.ev.ExpLauncher()
        launcher.exps = {'a': params}
        launcher.jobs = {'a': types.SimpleNamespace(config=config)}
        damage = ch.chance(.15)
        if damage:
            fs.arm(ch.pick(fsio.WRITE_KINDS), ch.pick([0, 1, ch.draw(150)]))
        try:
            launcher.action_prepare()
        except Exception as e:
            ctx.check(damage and fs.fired, 'prepare', lambda: 'writing the '
                      'parameters raised {!r}'.format(e))
        except SimCrash:
            fs.reboot()
        fs.disarm()
        if damage:
            ctx.probe('config-damaged')
            try:
                got = cls.load_from_serialized(config).parameters
            except Exception:
                return params, None
            want = dict(self.defaults, **plain(params))
            ctx.check(plain(got) == want, 'parameters', lambda: 'a damaged '
                      'parameter file gives {} instead of {}'.format(
                          got, want))
            return params, None
        if how == 'file':
            exp = cls.load_from_serialized(config)
            exp.path = path
            return params, lambda: exp.run(debug=self.debug)

        def launch():
            argv = sys.argv
            sys.argv = ['prog', config, self.root, name] + (
                ['--debug'] if self.debug and ch.chance(.5) else [])
            try:
                cls.run_from_arguments(
                    **({'debug': True} if self.debug and
                       '--debug' not in sys.argv else {}))
            finally:
                sys.argv = argv

        return params, launch

    # Oracle

    def judge(self, w, err, stage, path, name, old, full, n_eval, debug, kind,
              fired):
        ctx = self.ctx
        failed = [p for p in w.procs if p._out['code'] != 0]
        lost = [p for p in failed if all(
            t not in str(p.report) for t in (
                'Impossible to sample', 'UnexpectedObservation',
                'InjectedFault', 'CalledProcessError'))]
        for p in lost:
            exc = [x for x in p.report if isinstance(x, tuple)]
            ctx.check(not exc, 'raised', lambda: 'an evaluation failed with '
                      '{}'.format(exc and exc[0][1]))
        ctx.probe('complete' if err is None else 'raised')
        must_fail = fired or stage in ('init', 'finish', 'encode') or \
            failed or any(k != 'kill-after-flush' for i, k in w.plan.items()) \
            or ctx.faults.get('start-failure', 0) > self.unstarted or (
                stage == 'warmup' and self.log.fault_in is None)
        if must_fail:
            ctx.check(err is not None, 'no-error', lambda: 'the run returned '
                      'although {} failed'.format(
                          stage if not failed else 'an evaluation'))
        elif kind == 'pomcp' and full['belief-values'] and isinstance(
                err, ValueError):
            # the planner does not share beliefs made of particles
            ctx.probe('refused-parameters')
        elif stage not in ('worker',):
            ctx.check(err is None, 'spurious', lambda: 'nothing failed and '
                      'the run raised {!r}'.format(err))
        exp = self.made[-1]
        got = self.read(path)
        if err is None:
            ctx.check(got is not None, 'absent', 'the run returned and no '
                      'result can be read')
            self.complete(got, exp, full, n_eval, debug, w)
            back = self.through_launcher(name)
            want = ([r['return'] for r in got['evaluations']],
                    [r['elapsed-time'] for r in got['evaluations']],
                    [r['simulator-calls'] for r in got['evaluations']])
            ctx.check(back == want, 'reader', lambda: 'the reader gives {} '
                      'for {}'.format(back, want))
            if kind == 'pomcp':
                self.check_policy(full, debug)
            ctx.check(self.warm[:1] == [2 if debug else full['n_warmup']],
                      'warmup', lambda: 'warm-up ran {} instead of {} '
                      'iterations'.format(self.warm, full['n_warmup']))
        elif got is None:
            ctx.probe('unreadable' if os.path.exists(path) else 'absent')
        elif old is not None and got == old:
            ctx.probe('old-result-kept')
        elif 'evaluations' in got:
            ctx.probe('fault-after-data')
            self.complete(got, exp, full, n_eval, debug, w)
        ctx.nontrivial = err is not None or n_eval >= 2
        ctx.sample = {'stage': stage, 'policy': kind, 'n': n_eval,
                      'error': repr(err), 'readable': got is not None}

    def read(self, path):
        try:
            with open(path, 'rb') as f:
                data = f.read()
        except FileNotFoundError:
            return None
        try:
            got = json.loads(data.decode())
        except ValueError:
            return None
        return got if isinstance(got, dict) else None

    def through_launcher(self, name):
        L = self.ev.ExpLauncher()
        L.jobs = {'a': types.SimpleNamespace(path=self.root, name=name)}
        try:
            r = L.get_results()['a']
            return tuple(list(x) for x in r)
        except Exception as e:
            self.ctx.violate('reader', 'a published result cannot be read '
                             'with the launcher: {!r}'.format(e))

    def complete(self, got, exp, full, n_eval, debug, w):
        ctx = self.ctx
        p = dict(full)
        if debug:
            p.update({'n_warmup': 2, 'n_evaluations': 2, 'iterations': 10,
                      'n_particles': 20, 'horizon-length': 2})
        ctx.check(got.get('parameters') == p, 'parameters', lambda: 'the '
                  'parameters read back as {} instead of {}'.format(
                      got.get('parameters'), p))
        want = plain(exp.results)
        ctx.check(all(got.get(k) == v for k, v in want.items()
                      if k not in ('other',)), 'altered', lambda: 'the file '
                  'reads back as {} instead of {}'.format(
                      short(got), short(want)))
        recs = list(got['evaluations'])
        ctx.check(len(recs) == n_eval, 'evaluations', lambda: '{} '
                  'evaluations are published instead of {}'.format(
                      len(recs), n_eval))
        last = None
        max_h = 200 if self.max_h is None else self.max_h
        for pr in w.procs:
            lg = pr.report[0]
            for i, rec in enumerate(recs):
                bad = episodes.judge(self.model, rec, lg.entries, lg.calls,
                                     lg.age(), max_h, self.model.discount)
                if bad is None:
                    recs.pop(i)
                    break
                last = bad
            else:
                ctx.violate('evaluations', 'no published evaluation describes '
                            'the episode of worker {}: {}'.format(
                                pr._index, last))

    def check_policy(self, full, debug):
        ctx = self.ctx
        p = dict(full)
        if debug:
            p.update({'iterations': 10, 'n_particles': 20,
                      'horizon-length': 2})
        k = self.pol_kwargs[-1]
        h = k['horizon']
        h = h() if callable(h) and not hasattr(h, 'n') else h
        want = {'iterations': p['iterations'],
                'rollout_it': p['rollout-iterations'],
                'exploration': p['exploration'],
                'relative_exploration': p['relative-explo'],
                'belief_values': p['belief-values'],
                'particles': p['n_particles'],
                'belief': 'particle',
                'horizon': p['horizon-length']}
        got = {n: k[n] for n in ('iterations', 'rollout_it', 'exploration',
                                 'relative_exploration', 'belief_values',
                                 'belief')}
        got['particles'] = (k.get('belief_params') or {}).get('n_particles')
        got['horizon'] = horizon_length(h)
        ctx.check(got == want, 'parameters-used', lambda: 'the planner is '
                  'built with {} instead of {}'.format(got, want))
        kind = self.ns.supportive.NHTMHorizon \
            if p['horizon-type'] == 'htm' else \
            self.ns.evaluation.FinishedOrNTransitionsHorizon
        made = h
        ctx.check(isinstance(made, kind), 'parameters-used', lambda:
                  'horizon {} for {}'.format(type(made), p['horizon-type']))


def horizon_length(h):
    return h.n


class Warm:
    """Policy given to the experiment: logs and reports warm-up requests."""

    def __init__(self, sc, policy):
        self._sc = sc
        self._spy = episodes.Spy(policy, sc.log)
        self._fresh = True

    def get_action(self, *args, **kwargs):
        sc = self._sc
        if self._fresh:
            self._fresh = False
            sc.warm.append(args[0] if args else kwargs.get('iterations'))
            a = self._spy.get_action(*args, **kwargs)
            # the warm-up planned before
            return a
        return self._spy.get_action(*args, **kwargs)

    def reset(self, *args, **kwargs):
        return self._spy.reset(*args, **kwargs)

    def step(self, o):
        return self._spy.step(o)

    def __getattr__(self, name):
        return getattr(self._spy, name)


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'
