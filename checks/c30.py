"""C30: an export of the search is the search, and changes nothing in it."""
import json
import math
import os
import shutil
import tempfile

import numpy as np

from sim import fsio, loader, planner, planning
from sim.core import InjectedFault, SimCrash

from . import c07

ID = 'C30'
RUNS = {'quick': 8000, 'thorough': 80000}
TECHNIQUE = ('deterministic simulation of searches exported at random moments '
             'to a storage that fails; oracle is a reference tree fed with '
             'the observed transitions')
RULE = ('random model (matrix or supportive-task), horizon, belief type, node '
        'sharing, exploration, synchronous or background search, model '
        'errors, program of choices, steps, resets and exports (policy file, '
        'policy file with beliefs over subtasks, complete tree), storage '
        'fault at any byte; every exported entry is compared with the '
        'reference; non-trivial: an export of at least three histories')
COMPONENTS = {
    'real': ['task_models.lib.pomcp (search, to_dict, map, export_pomcp)',
             'task_models.lib.belief', 'task_models.lib.pomdp.POMDP',
             'task_models.supportive', 'json, io, stdlib threading.py'],
    'stub': ['_thread locks and scheduler', 'time',
             'raw file layer (real files under a scratch directory)']}
ASSUMPTIONS = ['values agree to 1e-9 relative',
               'an export that finds an action without any visit may record '
               'it as an empty branch',
               'beliefs shared by several histories are expanded in one of '
               'them']
PROBES = ('export-policy', 'export-quotient', 'export-full', 'deep-export',
          'never-tried-action', 'shared-entry', 'export-after-abort',
          'export-while-exploring', 'overwrite', 'two-observations',
          'save-raised', 'crashed', 'search-went-on', 'observed-not-identity')
FAULTS = ('model-error', 'stall', 'disk-enospc', 'disk-eio', 'disk-eio-once',
          'disk-short-writes', 'disk-close-error', 'disk-open-denied',
          'disk-crash', 'disk-power-loss', 'disk-torn-block')


def setup():
    loader.load()


def run(ctx):
    kind = ctx.ch.pick(['sync', 'sync', 'supportive', 'supportive', 'async'])
    root = tempfile.mkdtemp(dir=loader.scratch())
    try:
        if kind == 'async':
            with planning.random_kernel(ctx) as k:
                drive(ctx, c07.PlannerH(ctx, True), k, root)
        elif kind == 'supportive':
            drive(ctx, c07.SupportiveH(ctx), None, root)
        else:
            drive(ctx, c07.PlannerH(ctx, False), None, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


class Export:
    """Judges one exported document against the reference."""

    def __init__(self, p, kind):
        self.p = p
        self.ctx = p.ctx
        self.kind = kind
        self.model = p.model
        self.ref = p.ref
        self.entries = 0
        self.depth = 0
        self.seen = {}        # id(node) -> [expanded entries, other entries]
        self.nodes = []

    def fail(self, tag, msg, path):
        self.p.fail(tag, 'in the {} export, entry for {}: {}'.format(
            self.kind, '/'.join(path) or 'the start', msg))

    def has(self, d, keys, path):
        if not isinstance(d, dict):
            self.fail('export-form', 'a {} instead of an entry'.format(
                type(d).__name__), path)
        for k in keys:
            if k not in d:
                self.fail('export-form', 'no {!r}'.format(k), path)

    def document(self, d, params=True):
        p, m = self.p, self.model
        self.has(d, ['graphs'], ())
        if not isinstance(d['graphs'], list) or len(d['graphs']) != 1:
            self.fail('export-form', 'not exactly one tree', ())
        if params:
            self.has(d, ['states', 'actions', 'exploration',
                         'relative_exploration'], ())
            want = [str(x) for x in m.actions]
            if d['actions'] != want:
                self.fail('export-names', 'actions {} instead of {}'.format(
                    d['actions'], want), ())
            want = self.states()
            if d['states'] != want:
                self.fail('export-names', 'states {} instead of {}'.format(
                    d['states'], want), ())
            if d['exploration'] != self.ref.exploration or \
                    d['relative_exploration'] is not bool(p.relative):
                self.fail('export-params', 'exploration {} {} instead of {} {}'
                          .format(d['exploration'], d['relative_exploration'],
                                  self.ref.exploration, p.relative), ())
        if self.kind == 'full':
            self.full(d['graphs'][0], p.runner.tree.root, ())
        else:
            self.policy(d['graphs'][0], p.runner.tree.root, (), None)
        for node, path in self.nodes:
            exp, rest = self.seen[id(node)]
            if exp + (0 if exp else rest) != 1 or (rest and not p.sharing):
                self.fail('export-coverage', 'its belief is expanded in {} '
                          'entries and left out in {}'.format(exp, rest), path)

    def states(self):
        m = self.model
        if self.kind == 'quotient':
            return [n.name for n in m.htm_nodes] + ['clean', 'final']
        return [str(x) for x in m.states]

    # What every entry says about a node

    def common(self, d, node, path, belief=None):
        self.entries += 1
        self.depth = max(self.depth, len(path))
        n, v = self.ref.stats.get(id(node), (0, 0.))
        if d['visits'] != n or isinstance(d['visits'], bool):
            self.fail('export-visits', '{!r} visits instead of {}'.format(
                d['visits'], n), path)
        self.number(d['value'], v, 'value', path)
        if belief is not None:
            got = d['belief']
            if not isinstance(got, list) or len(got) != len(belief) or \
                    not all(planner.close(x, y) for x, y in zip(got, belief)):
                self.fail('export-belief', 'belief {} instead of {}'.format(
                    got, list(belief)), path)

    def number(self, x, want, what, path):
        if want is None:
            ok = x is None
        else:
            ok = isinstance(x, (int, float)) and planner.close(x, want)
        if not ok:
            self.fail('export-value', '{} is {!r} instead of {!r}'.format(
                what, x, want), path)

    def belief_of(self, node):
        b = node.belief
        if self.p.belief == 'particle':
            a = np.zeros(self.model.n_states)
            for s in b.part_states:
                a[s] += 1. / len(b.part_states)
        else:
            a = np.array(b.array)
        if self.kind != 'quotient':
            return a
        n = len(self.model.preferences) + 1 + len(self.model.objects)
        q = [0.] * (len(self.model.htm_nodes) + 2)
        for s in np.nonzero(a)[0]:
            q[int(s) >> n] += a[s]
        return np.array(q)

    def outcomes(self, anode):
        """Observations with a node after this action."""
        if anode is None:
            return {}
        got = {o for o in range(self.p.n_obs)
               if (id(anode), o) in self.ref.edges}
        return {o: anode.children[o] for o in got if o in anode.children}

    def count(self, node, expanded, path):
        c = self.seen.get(id(node))
        if c is None:
            c = self.seen[id(node)] = [0, 0]
            self.nodes.append((node, path))
        c[0 if expanded else 1] += 1
        if not expanded:
            self.ctx.probe('shared-entry')

    def branches(self, d, anode, path, down):
        """Lists of observations and children against a real branch."""
        outs = self.outcomes(anode)
        names = [str(x) for x in self.model.observations]
        if len(set(d['observations'])) != len(d['observations']) or \
                set(d['observations']) != {names[o] for o in outs}:
            self.fail('export-coverage', 'observations {} instead of {}'
                      .format(d['observations'],
                              sorted(names[o] for o in outs)), path)
        if len(d['children']) != len(d['observations']):
            self.fail('export-coverage', '{} continuations for {} '
                      'observations'.format(len(d['children']),
                                            len(d['observations'])), path)
        if len(outs) > 1:
            self.ctx.probe('two-observations')
        for i, (x, c) in enumerate(zip(d['observations'], d['children'])):
            o = names.index(x)
            if i != o:
                self.ctx.probe('observed-not-identity')
            down(c, outs[o], path + (x,), i)

    # A tree of decisions

    def policy(self, d, node, path, observed):
        keys = ['value', 'visits', 'belief', 'action', 'observed', 'values',
                'exploration_terms', 'child_visits']
        self.has(d, keys, path)
        self.common(d, node, path, self.belief_of(node))
        m, ref = self.model, self.ref
        if d['action'] not in m.actions:
            self.fail('export-action', 'unknown action {!r}'.format(
                d['action']), path)
        a = list(m.actions).index(d['action'])
        ok = ref.best(node, 0., False)
        if a not in ok:
            self.fail('export-action', 'action {} where the search allows {}'
                      .format(d['action'], [m.actions[x] for x in ok]), path)
        if ref.untried(node):
            self.ctx.probe('never-tried-action')
        if d['observed'] != observed or isinstance(d['observed'], bool):
            self.fail('export-observed', 'labelled as following observation '
                      '{!r} of its parent instead of {!r}'.format(
                          d['observed'], observed), path)
        st = [(0, 0.) if c is None else ref.stats.get(id(c), (0, 0.))
              for c in node.children]
        for k in ('values', 'exploration_terms', 'child_visits'):
            if not isinstance(d[k], list) or len(d[k]) != len(m.actions):
                self.fail('export-form', '{!r} is not one per action'.format(
                    k), path)
        if d['child_visits'] != [n for n, _ in st]:
            self.fail('export-visits', 'actions visited {} instead of {}'
                      .format(d['child_visits'], [n for n, _ in st]), path)
        total = ref.stats.get(id(node), (0, 0.))[0]
        for i, (n, v) in enumerate(st):
            name = m.actions[i]
            self.number(d['values'][i], v if n else None,
                        'the value of ' + name, path)
            self.number(d['exploration_terms'][i],
                        math.sqrt(math.log(total) / n) if n else None,
                        'the exploration term of ' + name, path)
        expanded = 'children' in d
        self.count(node, expanded, path)
        if not expanded:
            return
        self.has(d, ['observations'], path)
        self.branches(d, node.children[a], path + (d['action'],), self.policy)

    # A complete tree

    def full(self, d, node, path, observed=None):
        self.has(d, ['value', 'visits', 'belief', 'actions', 'children'],
                 path)
        self.common(d, node, path, self.belief_of(node))
        names = [str(x) for x in self.model.actions]
        if len(d['children']) != len(d['actions']) or \
                len(set(d['actions'])) != len(d['actions']) or \
                not set(d['actions']) <= set(names):
            self.fail('export-coverage', '{} branches for the actions {}'
                      .format(len(d['children']), d['actions']), path)
        must = {names[a] for a, c in enumerate(node.children)
                if c is not None and (self.ref.stats.get(id(c), (0, 0))[0] or
                                      self.outcomes(c))}
        got = set(d['actions'])
        if not got:
            if must:
                self.count(node, False, path)
            return
        if not must <= got:
            self.fail('export-coverage', 'no branch for {}'.format(
                sorted(must - got)), path)
        self.count(node, True, path)
        for x, c in zip(d['actions'], d['children']):
            anode = node.children[names.index(x)]
            p = path + (x,)
            self.has(c, ['value', 'visits', 'observations', 'children'], p)
            if anode is None:
                if c['visits'] != 0 or c['observations'] or c['children']:
                    self.fail('export-coverage', 'a branch never searched', p)
                continue
            self.common(c, anode, p)
            self.branches(c, anode, p, self.full)


def content(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return None


def drive(ctx, p, k, root):
    ch = ctx.ch
    p.build()
    if getattr(p, 'kind', '') == 'int' and not p.plain_requests:
        ctx.probe('horizon-not-observed')
        return
    supportive = isinstance(p, c07.SupportiveH)
    pomcp = p.ns.pomcp
    if ch.chance(.3):
        p.rec.fault_in = ch.draw(400)
    written = set()
    sizes = []
    sims_at_export = None

    def exclusive(f, *args):
        return p.runner.execute(f, *args) if k is not None else f(*args)

    def compare(tag):
        p.sync_ref()
        p.ref.compare('({})'.format(tag))

    def export(fs):
        p.sync_ref()
        kinds = ['policy', 'full'] + (['quotient'] * 2 if supportive else [])
        kind = ch.pick(kinds)
        p.op('export', kind)
        p.expect_node, p.expect_action = None, None
        path = os.path.join(root, 'f%d.json' % ch.draw(2))
        if ch.chance(.3):
            at = ch.pick([0, 1, ch.draw(300), ch.draw(4000), ch.draw(40000)])
            fs.arm(ch.pick(fsio.WRITE_KINDS), at)
        fault = p.rec.fault_in
        p.rec.fault_in = None
        before = content(path)
        outcome = 'saved'
        try:
            if kind == 'full':
                d = p.runner.trajectory_trees_from_starts(qvalue=True)
                with open(path, 'w') as f:
                    json.dump(d, f)
            elif kind == 'quotient':
                pomcp.export_pomcp(p.runner, path, belief_as_quotient=True)
            elif supportive and p.model.n_states > 300:
                # the states of these are not meant to be listed
                kind = 'policy-only'
                d = p.runner.trajectory_trees_from_starts()
                with open(path, 'w') as f:
                    json.dump(d, f)
            else:
                pomcp.export_pomcp(p.runner, path)
        except SimCrash:
            outcome = 'crashed'
        except OSError as e:
            outcome = 'raised'
            ctx.event('export raised', type(e).__name__)
        fired = fs.fired
        if outcome == 'crashed':
            fs.reboot()
        fs.disarm()
        fs.fired = False
        p.rec.fault_in = fault
        ctx.event('export', kind, outcome)
        if outcome != 'saved' and not fired:
            p.fail('export-failed', 'exporting raised without any fault')
        if outcome != 'saved':
            ctx.probe('crashed' if outcome == 'crashed' else 'save-raised')
        try:
            with open(path) as f:
                doc = json.load(f)
        except (OSError, ValueError) as e:
            if outcome == 'saved':
                p.fail('export-unreadable', 'a completed export does not read '
                       'back: {!r}'.format(e))
            written.discard(path)
        else:
            if outcome == 'saved':
                e = Export(p, kind.split('-')[0])
                e.document(doc, params=kind in ('policy', 'quotient'))
                ctx.probe('export-' + kind.split('-')[0])
                if e.depth >= 4:
                    ctx.probe('deep-export')
                sizes.append(e.entries)
                if path in written:
                    ctx.probe('overwrite')
                written.add(path)
            elif content(path) != before:
                # it failed but looks like an export: then it must be one
                e = Export(p, kind.split('-')[0])
                e.document(doc, params=kind in ('policy', 'quotient'))
        compare('after the export')
        return len(p.rec.sims)

    with fsio.FaultFS(ctx, root) as fs:
        for i in range(ch.between(2, 8)):
            what = ch.weighted([(5, 'get'), (3, 'step'), (1, 'reset'),
                                (4, 'export'), (1, 'idle')])
            if i == 0:
                what = ch.pick(['get', 'get', 'get', 'export'])
            if what == 'step' and p.last is None:
                what = 'get'
            if what == 'get':
                p.get_action(ch.pick([None, 2, 5, 20]))
            elif what == 'step':
                p.step(ch.draw(p.n_obs))
            elif what == 'reset':
                p.reset()
            elif what == 'idle' and k is not None:
                k.idle(ch.pick([.015, .2]))
            elif what == 'export':
                if sims_at_export is not None and \
                        len(p.rec.sims) > sims_at_export:
                    ctx.probe('search-went-on')
                if any(s.status == 'aborted' for s in p.sims()):
                    ctx.probe('export-after-abort')
                if k is not None:
                    ctx.probe('export-while-exploring')
                sims_at_export = exclusive(export, fs)
                p.end_op()
            if ch.chance(.2) and p.rec.fault_in is None:
                p.rec.fault_in = ch.draw(400)
    exclusive(compare, 'at the end')
    if k is not None:
        bad = [e for t, e in k.unhandled if not isinstance(e, InjectedFault)]
        if bad:
            p.fail('thread-died', 'the explorer died of {!r}'.format(bad[0]))
    ctx.nontrivial = bool(sizes) and max(sizes) >= 3
    ctx.sample = {'ops': p.ops, 'simulations': len(p.sims()),
                  'exports': sizes, 'n_actions': p.n_actions,
                  'horizon': getattr(p, 'kind', 'transitions')}
    c07._keep.append(p.runner)
