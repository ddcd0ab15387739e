"""C16: saved models and policies load back identical or fail loudly."""
import os
import tempfile

import numpy as np

from sim import fsio, loader, models, policies, taskmodels
from sim.core import SimCrash

ID = 'C16'
RUNS = {'quick': 12000, 'thorough': 150000}
TECHNIQUE = ('deterministic simulation of storage with a fault or crash at a '
             'chosen byte of a save or load; oracle compares whatever loads '
             'with the objects saved')
RULE = ('random models (also task-derived, randomised) and random or visited '
        'policies; sequences of saves to one or two paths with at most one '
        'fault each, each followed by loads, some failing; non-trivial: an '
        'object was loaded from a file or a fault fired')
COMPONENTS = {
    'real': ['task_models.lib.pomdp', 'json', 'io text and buffer layers'],
    'stub': ['raw file layer under the scratch directory']}
ASSUMPTIONS = ['a write whose error is only reported at close may have '
               'reached the file',
               'after a power loss any suffix, or one block, written since '
               'the last fsync is lost',
               'names are strings or the default numbers']
PROBES = ('model', 'policy', 'loaded', 'load-raised', 'overwritten',
          'save-raised', 'crashed', 'no-edge', 'decisions', 'odd-names',
          'text', 'indented', 'task-model', 'visited', 'randomised',
          'wrong-kind')
FAULTS = tuple('disk-' + k for k in fsio.WRITE_KINDS + fsio.READ_KINDS)


def setup():
    loader.load()


def run(ctx):
    np.random.seed(ctx.ch.draw(1 << 16))
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        Scenario(ctx, root).run()
    finally:
        import shutil
        shutil.rmtree(root, ignore_errors=True)


ODD = ['é', '"', "it's", 'a b', '\\n', 'x\ny', '', '{', ' ', '0']


class Scenario:

    def __init__(self, ctx, root):
        self.ctx, self.ch, self.root = ctx, ctx.ch, root
        self.ns = loader.load()
        self.pd = self.ns.pomdp

    def make(self):
        ctx, ch = self.ctx, self.ch
        if ch.chance(.5):
            ctx.probe('model')
            return self.model()
        ctx.probe('policy')
        return self.policy()

    def model(self):
        ctx, ch = self.ctx, self.ch
        kind = ch.weighted([(6, 'random'), (1, 'collab'), (1, 'bring')])
        if kind == 'random':
            m, (T, O, R, start, d) = models.random_pomdp(ctx)
            if ch.chance(.3):
                ctx.probe('odd-names')
                s = [x + str(i) for i, x in
                     ((i, ch.pick(ODD)) for i in range(len(start)))]
                m = self.pd.POMDP(
                    T, O, R * ch.pick([1, 1e-9, -1e12]), start, d, states=s,
                    observations=tuple('o%d' % i
                                       for i in range(O.shape[-1])))
        else:
            ctx.probe('task-model')
            if kind == 'collab':
                m = taskmodels.random_collab(ctx, max_leaves=2,
                                             max_expanded=4)[-1]
            else:
                m = taskmodels.random_bring(ctx, max_leaves=3)[-1]
        if ch.chance(.2):
            m.randomize(ch.pick([1e-3, .1]))
            ctx.probe('randomised')
        return 'model', m, models.snapshot(m)

    def policy(self):
        ctx, ch = self.ctx, self.ch
        if ch.chance(.2):
            m = models.random_pomdp(ctx, max_s=3, max_a=3, max_o=3)[0]
            g = policies.random_graph(ctx, m)[0]
            g = self.pd.GraphPolicyBeliefRunner(g, m).visit(
                max_states=ch.pick([0, 3, 8]))
            ctx.probe('visited')
        else:
            g = policies.random_graph(ctx)[0]
            if ch.chance(.2):
                g.values = g.values * 1e-17
        snap = policies.snapshot(g)
        if any(t is None for row in snap['transitions'] for t in row):
            ctx.probe('no-edge')
        return 'policy', g, snap

    def save(self, obj, path):
        kind, o, _ = obj
        if kind == 'model':
            return o.save_as_json(path)
        indent = self.ch.pick([None, None, 0, 2])
        if indent is None:
            return o.save_as_json(path)
        self.ctx.probe('indented')
        return o.save_as_json(path, indent=indent)

    def load(self, kind, path):
        c = self.pd.POMDP if kind == 'model' else self.pd.GraphPolicy
        return c.load_from_json(path)

    def differs(self, kind, o, snap):
        """None, or how a loaded object differs from the one saved."""
        if kind == 'model':
            if not isinstance(o, self.pd.POMDP):
                return 'a {} is loaded'.format(type(o).__name__)
            return models.difference(o, snap)
        if not isinstance(o, self.pd.GraphPolicy):
            return 'a {} is loaded'.format(type(o).__name__)
        return policies.difference(o, snap)

    def run(self):
        ctx, ch = self.ctx, self.ch
        files = {}          # path -> allowed contents, certain
        n = 0
        with fsio.FaultFS(ctx, self.root) as fs:
            for i in range(ch.between(1, 5)):
                path = os.path.join(self.root, 'f%d' % ch.draw(2))
                old = files.get(path)
                obj = self.make()
                if ch.chance(.15):
                    self.text(obj)
                fault = None
                if ch.chance(.6):
                    fault = ch.pick(fsio.WRITE_KINDS)
                    at = ch.pick([0, 1, ch.draw(300), ch.draw(4000),
                                  ch.draw(20000)])
                    fs.arm(fault, at)
                if old is not None:
                    ctx.probe('overwritten')
                outcome = 'saved'
                try:
                    self.save(obj, path)
                except SimCrash:
                    outcome = 'crashed'
                except Exception as e:
                    outcome = 'raised'
                    ctx.event('save raised', type(e).__name__)
                ctx.event('save', obj[0], os.path.basename(path), outcome)
                fired = fs.fired
                if outcome == 'crashed':
                    fs.reboot()
                fs.disarm()
                if outcome != 'saved':
                    ctx.probe('crashed' if outcome == 'crashed'
                              else 'save-raised')
                    ctx.check(fired, 'save-failed', lambda: 'saving a {} '
                              'raised without any fault'.format(obj[0]))
                d = self.differs(*obj)
                ctx.check(d is None, 'changed', lambda: 'saving altered the '
                          'saved {}: {}'.format(obj[0], d))
                if outcome == 'saved':
                    files[path] = ([obj], True)
                else:
                    files[path] = ([obj] + (old[0] if old else []), False)
                n += self.read(fs, path, files[path])
                if len(files) > 1 and ch.chance(.5):
                    other = [p for p in files if p != path][0]
                    n += self.read(fs, other, files[other])
                n += fired
                ctx.sim_time += 1.
        ctx.nontrivial = n > 0
        ctx.sample = {'files': len(files), 'read or fired': n}

    def text(self, obj):
        """Through strings instead of files."""
        kind, o, snap = obj
        self.ctx.probe('text')
        if kind == 'model':
            o2 = self.pd.POMDP.from_json(o.as_json())
        else:
            o2 = self.pd.GraphPolicy.from_json(
                o.to_json(indent=self.ch.pick([None, 1])))
        d = self.differs(kind, o2, snap)
        self.ctx.check(d is None, 'text', lambda: 'a {} read back from its '
                       'JSON text differs: {}'.format(kind, d))

    def read(self, fs, path, content):
        """A later run loads the file."""
        ctx, ch = self.ctx, self.ch
        allowed, certain = content
        for fault in ([ch.pick(fsio.READ_KINDS)] if ch.chance(.2)
                      else []) + [None]:
            kind = allowed[0][0]
            if fault is not None:
                fs.arm(fault)
            elif not certain and len(allowed) > 1 and ch.chance(.3):
                kind = allowed[-1][0]
            try:
                o = self.load(kind, path)
            except SimCrash:
                raise
            except Exception as e:
                ctx.event('load raised', type(e).__name__)
                ctx.probe('load-raised')
                ctx.check(not certain or fs.fired and fault, 'unloadable',
                          lambda: 'the saved {} cannot be loaded: {!r}'.format(
                              kind, e))
                fs.disarm()
                continue
            fs.disarm()
            ctx.event('loaded', kind)
            ctx.probe('loaded')
            ds = [(a, self.differs(kind, o, a[2]))
                  for a in allowed if a[0] == kind]
            good = [a for a, d in ds if d is None]
            ctx.check(good, 'different', lambda: 'the {} that loads {} was '
                      'not saved: {}'.format(
                          kind, 'after an interrupted save'
                          if not certain else 'back', [d for _, d in ds]))
            if kind == 'policy':
                self.decisions(good[0][2], o)
        if ch.chance(.1) and certain:
            self.wrong_kind(path, allowed[0][0])
        return 1

    def wrong_kind(self, path, kind):
        """A file of the other kind is no object."""
        self.ctx.probe('wrong-kind')
        try:
            self.load('policy' if kind == 'model' else 'model', path)
        except Exception:
            return
        self.ctx.violate('wrong-kind', 'a saved {} loads as another kind of '
                         'object'.format(kind))

    def decisions(self, snap, g):
        """Same decisions along a history of observations."""
        ctx, ch = self.ctx, self.ch
        r = self.pd.GraphPolicyRunner(g)
        cur = snap['init']
        for _ in range(ch.between(0, 5)):
            ctx.check(r.get_action() == snap['actions'][cur], 'decision',
                      lambda: 'the loaded policy does {} instead of {}'.format(
                          r.get_action(), snap['actions'][cur]))
            ctx.probe('decisions')
            i = ch.draw(len(snap['observations']))
            nxt = snap['transitions'][cur][i]
            try:
                r.step(snap['observations'][i])
            except self.pd.Impossible:
                ctx.check(nxt is None, 'rejected', 'the loaded policy rejects '
                          'an observation that the saved one accepts')
                continue
            ctx.check(nxt is not None, 'accepted', 'the loaded policy accepts '
                      'an observation that the saved one rejects')
            cur = nxt
