"""C29: the pages draw what was exported, whatever happens to them."""
import json
import os
import re
import shutil
import tempfile
from collections import Counter

import numpy as np

from sim import htm, loader, models, policies, webpages

from . import c27

ID = 'C29'
RUNS = {'quick': 2000, 'thorough': 60000}
TECHNIQUE = ('deterministic simulation of the pages in a browser whose '
             'network, clock, user and robot are under control; oracle is '
             'the exported document and an independent account of what was '
             'asked for, opened and closed')
RULE = ('documents exported by the package (tasks, policy graphs, '
        'trajectories, searches) or written by hand; pages loaded with their '
        'own scripts, then a program of file choices, answers in any order, '
        'failures, clicks in the middle of movements, stalls, zooms, drags, '
        'messages of the robot that are repeated, reordered or malformed, '
        'and files exported anew; the drawing is read back from the page '
        'whenever it comes to rest; non-trivial: a drawing of four nodes was '
        'judged after three actions')
COMPONENTS = {
    'real': ['visualization/*/*.js and the scripts of *.html (node v22)',
             'task_models exports (task, lib.pomdp, lib.pomcp)'],
    'stub': ['document, d3 versions 3 and 4, jQuery and roslib (stand-ins '
             'after their documentation, sim/browser)', 'network, clock, '
             'frames, user, rosbridge']}
ASSUMPTIONS = ['a stand-in of d3 places nodes; only which nodes, labels and '
               'links are drawn, and where links lead, is judged',
               'browsers give the name of a chosen file as C:\\fakepath\\...',
               'the symbol of a closed node is not judged',
               'tasks that are shown are not empty']
PAGES = {'htm': 'htm/htm.html',
         'ros': 'htm-ros-subscriber/htm-ros-subscriber.html',
         'policy': 'policy/policy.html',
         'trajectories': 'trajectories/trajectories.html',
         'pomcp': 'pomcp/pomcp.html'}
PROBES = tuple(PAGES) + (
    'judged', 'nothing-shown', 'opened', 'closed', 'clicked-moving',
    'clicked-leaving', 'clicked-gone', 'superseded', 'expand-all',
    'collapse-all', 'refreshed', 'exported-anew', 'leaf-root', 'same-ids',
    'done-off', 'done-on', 'self-loop', 'inconsistent', 'dragged', 'zoomed',
    'hovered', 'message', 'connected', 'abbreviated', 'real-export',
    'three-levels', 'never-answered', 'highlight-changed', 'relative',
    'numbered', 'opened-onto-closed', 'coloured')
FAULTS = ('missing-file', 'torn-file', 'late-answer', 'stall',
          'message-duplicated', 'message-reordered', 'message-malformed',
          'connection-lost', 'connection-error', 'slow-frames')

SHORT = {'policy': [('intention', 'int'), ('phy', 'P '), ('com-', 'C '),
                    ('-get', ' Get'), ('-snap', ' Snap'),
                    ('-left-leg', 'LL'), ('-right-leg', 'RL'),
                    ('-central-frame', 'CF')]}
SHORT['trajectories'] = SHORT['policy']
SHORT['pomcp'] = [(a, {'P ': 'P-', 'C ': 'C-'}.get(b, b))
                  for a, b in SHORT['policy']]
SHORT['htm'] = SHORT['ros'] = [
    ('REQUEST-ACTION', ' '), ('-OF-OBJECT', ' '), ('ARTIFACT-', ' '),
    (' ARTIFACT', ' '), ('Parallelized Subtasks of ', ' '),
    ('FOOT_BRACKET', 'bracket-foot')]
SYMBOL = {'Parallel': '||', 'Sequential': '\u2192', 'Alternative': 'v'}
ACTIONS = ['wait', 'phy-robot-get-left-leg', 'com-human-snap-right-leg',
           'intention-get-central-frame', 'phy-human-snap-left-leg', 'hold',
           'com-get-left-leg-get-left-leg', 'bring top', 'a0', 'aX-getting']
OBSERVATIONS = ['none', 'yes', 'no', 'error', 'done', 'seen', 'o-1']
TASKS = ['REQUEST-ACTION GIVE SCREWDRIVER', 'HOLD-OF-OBJECT ARTIFACT-LEG',
         'GET(screwdriver)', 'Parallelized Subtasks of Build',
         'FOOT_BRACKET 2', 'TAKE ARTIFACT top']


def setup():
    loader.load()


def short(kind, name):
    name = str(name)
    for a, b in SHORT[kind]:
        name = name.replace(a, b, 1)
    return name


def run(ctx):
    root = tempfile.mkdtemp(dir=loader.scratch())
    np.random.seed(ctx.ch.draw(1 << 16))
    try:
        kind = ctx.ch.pick(['htm', 'htm', 'ros', 'ros', 'policy',
                            'trajectories', 'pomcp'])
        ctx.probe(kind)
        try:
            World(ctx, kind, root).run()
        except webpages.Hang:
            ctx.violate('hang', 'the page never comes to rest')
        except webpages.Undecided as e:
            ctx.event('undecided', str(e))
            ctx.probe('undecided')
    finally:
        shutil.rmtree(root, ignore_errors=True)


# Documents ------------------------------------------------------------------

def task_document(ctx, root):
    ch, ns = ctx.ch, loader.load()
    spec, _ = htm.random_spec(ch, max_leaves=ch.pick([1, 3, 6, 10]),
                              max_depth=ch.pick([2, 4, 6]),
                              max_words=10 ** 6, max_expanded=10 ** 6)
    for _ in range(ch.pick([0, 0, 0, 2, 4, 6])):
        parts = [spec, ('leaf', 0)][:ch.pick([1, 2, 2])]
        spec = (ch.pick(['seq', 'alt']), ch.shuffled(parts))
    tree = c27.Node(ch, spec)
    for x in tree.walk():
        if ch.chance(.15):
            x.name = ch.pick(TASKS)
    if ch.chance(.5):
        ctx.probe('real-export')
        task = ns.task
        classes = {'Sequential': task.SequentialCombination,
                   'Alternative': task.AlternativeCombination,
                   'Parallel': task.ParallelCombination}

        def build(x):
            if x.kind is None:
                return task.LeafCombination(task.AbstractAction(x.name),
                                            highlighted=x.high)
            return classes[x.kind]([build(c) for c in x.children],
                                   name=x.name, highlighted=x.high)

        return task.HierarchicalTask(build(tree)).as_dictionary()
    count = iter(range(ch.pick([0, 0, 1, 100]), 10 ** 6))
    tree.number(count)
    d = {'name': 'x', 'nodes': tree.describe(ch)}
    if ch.chance(.3):
        for n in nodes_of(d['nodes']):
            n.setdefault('children', [])
    return d


def nodes_of(n):
    yield n
    for c in n.get('children') or ():
        for x in nodes_of(c):
            yield x


def renamed(ctx, d, m):
    """The same document, mostly with names of the kinds the pages know."""
    ch = ctx.ch
    if ch.chance(.25):
        if not isinstance(m.actions[0], str):
            ctx.probe('numbered')
        return d
    a = dict(zip(m.actions, ch.shuffled(ACTIONS)))
    o = dict(zip(m.observations, ch.shuffled(OBSERVATIONS)))

    def visit(x):
        if isinstance(x, dict):
            for k in x:
                if k == 'action':
                    x[k] = a.get(x[k], x[k])
                elif k == 'actions':
                    x[k] = [a.get(v, v) for v in x[k]]
                elif k == 'observations':
                    x[k] = [o.get(v, v) for v in x[k]]
                else:
                    visit(x[k])
        elif isinstance(x, list):
            for v in x:
                visit(v)
    visit(d)
    return d


def policy_document(ctx, root):
    m = models.random_pomdp(ctx, max_s=3, max_a=4, max_o=4)[0]
    g, _ = policies.random_graph(ctx, m)
    d = json.loads(g.to_json())
    d = renamed(ctx, d, m)
    if ctx.ch.chance(.07):
        ctx.probe('inconsistent')
        t = ctx.ch.pick(d['transitions'])
        t[ctx.ch.draw(len(t))] = len(d['actions']) + ctx.ch.draw(3)
    return d


def trajectories_document(ctx, root):
    ns = loader.load()
    m = models.random_pomdp(ctx, max_s=3, max_a=3, max_o=3)[0]
    g, _ = policies.random_graph(ctx, m)
    r = ns.pomdp.GraphPolicyBeliefRunner(g, m)
    path = os.path.join(root, 'trajectories.json')
    r.save_trajectories_from_starts(path, horizon=ctx.ch.between(1, 4))
    with open(path) as f:
        d = json.load(f)
    return renamed(ctx, d, m)


def pomcp_document(ctx, root):
    ch, ns = ctx.ch, loader.load()
    m = models.random_pomdp(ctx, max_s=3, max_a=4, max_o=3)[0]
    p = ns.pomcp.POMCPPolicyRunner(
        m, iterations=ch.pick([5, 20, 60]), horizon=ch.between(2, 5),
        exploration=ch.pick([0., 1., 10.]),
        relative_exploration=ch.chance(.5), belief_values=ch.chance(.3))
    p.get_action()
    path = os.path.join(root, 'pomcp.json')
    ns.pomcp.export_pomcp(p, path)
    with open(path) as f:
        d = json.load(f)
    if ch.chance(.1):
        del d['exploration']
    return renamed(ctx, d, m)


MAKE = {'htm': task_document, 'ros': task_document, 'policy': policy_document,
        'trajectories': trajectories_document, 'pomcp': pomcp_document}


# What should be on the page -------------------------------------------------

class Item:
    """A node of a tree that is shown."""

    def __init__(self, kind, d, key, parent=None, obs=None):
        self.kind, self.d, self.key, self.obs = kind, d, key, obs
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        names = d.get('observations') or []
        self.children = []
        for i, c in enumerate(d.get('children') or ()):
            o = None
            if kind == 'trajectories':
                o = names[i]
            elif kind == 'pomcp':
                o = names[c['observed']]
            self.children.append(Item(kind, c, None, self, o))
        self.open = True
        self.e = None

    @property
    def label(self):
        d = self.d
        if self.kind in ('htm', 'ros'):
            return short('htm', d['name'])
        if self.kind == 'trajectories':
            return '[{}] {}'.format(d['node'], short(self.kind, d['action']))
        return short(self.kind, d['action'])

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x

    def visible(self):
        yield self
        if self.open:
            for c in self.children:
                for x in c.visible():
                    yield x

    def hidden(self):
        return self.parent is not None and (not self.parent.open or
                                            self.parent.hidden())


class World:

    def __init__(self, ctx, kind, root):
        self.ctx, self.ch, self.kind, self.root = ctx, ctx.ch, kind, root
        self.tree = kind != 'policy'
        self.task = kind in ('htm', 'ros')
        self.files = {}
        self.shown = None           # Item, or document of a policy
        self.tables = None          # document of the search that is shown
        self.wanted = None          # request whose answer is to be shown
        self.title = None
        self.depth = {'htm': 3, 'ros': 5}.get(kind)
        self.done = True
        self.file = None
        self.names = {}             # request -> name of the file
        self.data = None            # last message
        self.sent = []
        self.status = None
        self.error = False          # a message of inconsistency is shown
        self.elements = {}          # element -> Item, or None
        self.at = {}                # dragged elements
        self.actions = 0
        self.drawings = 0
        self.biggest = 0
        self.hover = None

    # Documents

    def document(self):
        d = MAKE[self.kind](self.ctx, self.root)
        if self.task:
            if self.ch.chance(.3) and self.files:
                # the same task a little later
                d = json.loads(self.ch.pick(sorted(self.files.values())))
                ns = list(nodes_of(d['nodes']))
                self.ctx.probe('same-ids')
                for _ in range(self.ch.between(1, 3)):
                    n = self.ch.pick(ns)
                    what = self.ch.draw(4)
                    if what == 0:
                        n['name'] += ' again'
                    elif what == 1:
                        a = n['attributes']
                        a.remove('highlighted') if 'highlighted' in a else \
                            a.append('highlighted')
                        self.ctx.probe('highlight-changed')
                    elif what == 2:
                        n['children'] = (n.get('children') or []) + [
                            {'name': 'new', 'id': 10 ** 4 + self.ch.draw(
                                10 ** 6), 'parent': n['id'],
                             'combination': None, 'attributes': ['robot']}]
                        if n['combination'] is None:
                            n['combination'] = self.ch.pick(
                                ['Sequential', 'Parallel'])
                    elif n.get('children'):
                        n['children'].pop()
        return json.dumps(d)

    def new_file(self):
        name = self.ch.pick(['a.json', 'b.json', 'c.json', 'my task.json'])
        if name in self.files:
            self.ctx.probe('exported-anew')
        self.files[name] = self.document()
        return name

    # Commands

    def open(self):
        opts = {'seed': self.ch.draw(1 << 20)}
        if self.ch.chance(.2):
            opts['frame'] = self.ch.pick([50, 200, 1000])
            self.ctx.fault('slow-frames')
        self.b = webpages.Browser(PAGES[self.kind], **opts)
        self.ctx.event('page', self.kind, opts.get('frame', 17))
        self.asked(None)
        self.no_errors('opening the page')

    def no_errors(self, what):
        e = self.b.take_errors()
        self.ctx.check(not e, 'script-error', lambda: '{}: {}'.format(
            what, e[0]))

    def asked(self, name):
        """After a command which asks for a file."""
        new = [i for i in self.b.requests if i not in self.names]
        if self.kind == 'ros' and (self.data is not None or name is None and
                                   self.file is None):
            self.ctx.check(not new, 'request', lambda: 'a file is asked for: '
                           '{}'.format(self.b.requests[new[0]]))
            return
        self.ctx.check(len(new) == 1, 'request', '{} requests instead of one'
                       .format(len(new)))
        i, url = new[0], self.b.requests[new[0]]
        if name is None and self.file is None:
            name = url[5:]          # the first one is the choice of the page
        elif name is None:
            name = self.file
        self.ctx.check(url == 'json/' + name, 'request', lambda: 'the page '
                       'asks for {} instead of json/{}'.format(url, name))
        self.file = self.names[i] = name
        if self.wanted is not None:
            self.ctx.probe('superseded')
        self.wanted = i
        if not self.task:
            self.shown = None
            self.error = False
            self.title = name.replace('.json', '', 1)
            self.elements = {}
            self.at = {}

    def run(self):
        ch, ctx = self.ch, self.ctx
        self.new_file()
        self.open()
        if self.wanted is not None and ch.chance(.8):
            self.files.setdefault(self.file, self.document())
        n = ch.pick([3, 8, 15, 25])
        for _ in range(n):
            self.actions += 1
            self.step()
            if ch.chance(.4):
                self.rest()
        self.rest()
        if self.wanted is not None:
            ctx.probe('never-answered')
        ctx.sim_time += self.b.now / 1000.
        ctx.nontrivial = self.drawings >= 1 and self.biggest >= 4 and n >= 3
        ctx.sample = {'page': self.kind, 'actions': n,
                      'drawings': self.drawings, 'largest': self.biggest}

    def step(self):
        ch = self.ch
        ops = [(3, self.pick_file), (1, self.refresh), (2, self.time)]
        if self.b.requests:
            ops.append((8, self.answer))
        if self.elements and self.tree:
            ops.append((8, self.click))
        if self.task:
            ops.append((2, self.levels))
        if self.kind == 'ros':
            ops = [o for o in ops if o[1] != self.pick_file or
                   self.data is None]
            ops += [(6, self.message), (2, self.connection)]
        if self.kind == 'policy':
            ops.append((2, self.switch))
            if self.elements:
                ops.append((2, self.drag))
        if self.kind == 'pomcp' and self.elements:
            ops.append((4, self.hovering))
        ops.append((1, self.zoom))
        op = ch.weighted(ops)
        self.ctx.sched(op.__name__)
        op()

    # The user

    def pick_file(self):
        ch = self.ch
        if self.files and ch.chance(.4):
            name = ch.pick(sorted(self.files))
        elif ch.chance(.1):
            name = 'absent.json'
        else:
            name = self.new_file()
        self.ctx.event('pick', name)
        self.b.do('pick', name=name)
        self.no_errors('choosing a file')
        self.asked(name)

    def press(self, what):
        self.b.do('event', on=what, type='click')

    def again(self):
        """The last document is to be shown anew."""
        if self.data is not None:
            d = self.parsed(self.data)
            if d is None:
                self.b.take_errors()
            else:
                self.show(d)
        else:
            self.asked(None)

    def refresh(self):
        button = {'htm': 'htm', 'ros': 'htm', 'trajectories': 'trajectory'}
        self.ctx.event('refresh')
        if self.file and self.file in self.files and self.ch.chance(.3):
            self.files[self.file] = self.document()
            self.ctx.probe('exported-anew')
        self.press('#{}-refresh'.format(button.get(self.kind, self.kind)))
        self.ctx.probe('refreshed')
        self.again()
        self.no_errors('refreshing')

    def levels(self):
        all_ = self.ch.chance(.5)
        self.ctx.event('levels', all_)
        self.ctx.probe('expand-all' if all_ else 'collapse-all')
        self.depth = 2000 if all_ else 3
        self.press('#htm-expand' if all_ else '#htm-collapse')
        self.again()
        self.no_errors('expanding or collapsing')

    def switch(self):
        on = self.ch.chance(.5)
        self.ctx.event('done', on)
        self.ctx.probe('done-on' if on else 'done-off')
        self.done = on
        self.press('#d_op_on' if on else '#d_op_off')
        self.no_errors('switching')
        self.asked(None)

    def time(self):
        ms = self.ch.pick([1, 20, 100, 300, 490, 510, 700, 2000])
        if self.ch.chance(.2):
            self.ctx.fault('stall')
            self.b.do('stall', ms=ms)
        else:
            self.b.do('advance', ms=ms)
        self.ctx.event('time', ms)
        self.no_errors('waiting')

    def zoom(self):
        self.ctx.event('zoom')
        self.b.do('zoom', x=self.ch.draw(100), y=self.ch.draw(100),
                  k=self.ch.pick([.5, 1., 2.]))
        self.ctx.probe('zoomed')
        self.no_errors('zooming')

    def click(self):
        e = self.ch.pick(sorted(self.elements))
        for _ in range(self.ch.pick([1, 1, 2, 3])):
            x = self.elements[e]
            inner = self.inner.get(e) or [e]
            r = self.b.do('event', on=self.ch.pick(inner), type='click')
            if 'missing' in r:
                self.ctx.probe('clicked-gone')
                self.ctx.event('click gone')
                return
            self.ctx.event('click', x.label if x else '-')
            self.no_errors('a click')
            if x is not None:
                if x.hidden():
                    self.ctx.probe('clicked-leaving')
                if x.children:
                    x.open = not x.open
                    self.ctx.probe('opened' if x.open else 'closed')
                    if x.open and any(c.children and not c.open
                                      for c in x.children):
                        self.ctx.probe('opened-onto-closed')
            self.rebind()
            if self.moving:
                self.ctx.probe('clicked-moving')
            self.moving = True
            if self.ch.chance(.5):
                self.time()

    def hovering(self):
        es = sorted(e for e, x in self.elements.items()
                    if x and not x.hidden())
        if not es:
            return
        e = self.ch.pick(es)
        r = self.b.do('event', on=e, type='mouseover')
        if 'missing' in r:
            return
        self.ctx.event('hover')
        self.ctx.probe('hovered')
        self.no_errors('hovering')
        self.hover = self.elements[e]
        self.judge_values()

    def drag(self):
        e = self.ch.pick(sorted(self.elements))
        moves = [[self.ch.between(-60, 60), self.ch.between(-60, 60),
                  self.ch.pick([0, 0, 20, 100])]
                 for _ in range(self.ch.between(1, 4))]
        r = self.b.do('drag', on=e, moves=moves)
        if 'missing' in r:
            return
        self.ctx.event('drag', moves)
        self.ctx.probe('dragged')
        self.no_errors('dragging')
        self.at[e] = r['at']

    # The network

    def answer(self):
        ch, ctx = self.ch, self.ctx
        i = ch.pick(sorted(self.b.requests))
        name = self.names[i]
        body = self.files.get(name)
        fails = True
        if body is None or ch.chance(.06):
            ctx.fault('missing-file')
            self.b.do('answer', request=i, status=404, body='')
        elif ch.chance(.06):
            ctx.fault('torn-file')
            self.b.do('answer', request=i, status=200,
                      body=body[:ch.draw(len(body))])
        else:
            fails = False
            self.b.do('answer', request=i, status=200, body=body)
        late = i != self.wanted
        ctx.event('answer', name, fails, late)
        if late:
            ctx.fault('late-answer')
        if fails:
            self.b.take_errors()
        else:
            self.no_errors('showing {}'.format(name))
        if late:
            return
        self.wanted = None
        if not fails:
            self.show(json.loads(body))

    def parsed(self, text):
        try:
            return json.loads(text)
        except ValueError:
            return None

    def message(self):
        ch, ctx = self.ch, self.ctx
        ctx.check(['/web_interface/json', 'std_msgs/String'] in self.b.topics,
                  'topic', 'the page does not listen to the robot')
        if self.sent and ch.chance(.3):
            text = ch.pick(self.sent)
            ctx.fault('message-duplicated' if text == self.sent[-1]
                      else 'message-reordered')
        elif self.sent and ch.chance(.1):
            text = self.sent[-1][:-1 - ch.draw(20)]
            ctx.fault('message-malformed')
        else:
            text = self.document()
            self.files['%d.msg' % len(self.sent)] = text
            self.sent.append(text)
        d = self.parsed(text)
        ctx.event('message', d is not None)
        ctx.probe('message')
        self.b.do('publish', topic='/web_interface/json', data=text)
        self.data = text
        self.wanted = None
        if d is None:
            self.b.take_errors()
        else:
            self.no_errors('a message')
            self.show(d)

    def connection(self):
        what = self.ch.pick(['connection', 'connection', 'close', 'error'])
        self.ctx.event('ros', what)
        self.b.do('ros', type=what, value={})
        self.no_errors('an event of the connection')
        self.status = what
        if what == 'connection':
            self.ctx.probe('connected')
        else:
            self.ctx.fault('connection-lost' if what == 'close' else
                           'connection-error')
        see = {}
        for k in ('connected', 'connecting', 'closed', 'error'):
            found = self.b.look('#' + k)
            see[k] = bool(found) and found[0]['style'].get('display') != 'none'
        self.ctx.check(see['connected'] == (what == 'connection'), 'status',
                       'after "{}", the page says that it is {}connected'
                       .format(what, '' if see['connected'] else 'not '))
        self.ctx.check(not see['connecting'], 'status', 'after "{}", the page '
                       'still connects'.format(what))
        self.ctx.check((see['error'] or see['closed']) ==
                       (what != 'connection'), 'status',
                       'after "{}", the page {} of trouble'.format(
                           what, 'speaks' if see['error'] or see['closed']
                           else 'does not speak'))

    # What is shown

    def show(self, d):
        self.wanted = None
        if not self.tree:
            last = len(d['actions']) - 1
            self.error = any(v is not None and v > last
                             for t in d['transitions'] for v in t)
            self.shown = None if self.error else d
            self.elements = {}
            self.at = {}
            return
        root = Item(self.kind, d['nodes'] if self.task else d['graphs'][0],
                    None)
        if not root.children:
            self.ctx.probe('leaf-root')
        for x in root.walk():
            if x.depth >= 3:
                self.ctx.probe('three-levels')
            if self.task:
                x.open = x.depth < self.depth or x.parent is None
            else:
                x.open = x.parent is None
            name = x.d['name' if self.task else 'action']
            if short(self.kind, name) != str(name):
                self.ctx.probe('abbreviated')
        if self.kind == 'pomcp':
            self.tables = d
            self.hover = None
            if d['relative_exploration']:
                self.ctx.probe('relative')
        self.shown = root
        self.rebind()

    def rebind(self):
        """Elements of the page follow the nodes of the same number."""
        if not self.task or self.shown is None:
            return
        byid = {x.d['id']: x for x in self.shown.visible()}
        for e, k in self.keys.items():
            if k in byid:
                self.elements[e] = byid[k]
            elif self.elements.get(e) is not None and \
                    self.top(self.elements[e]) is not self.shown:
                self.elements[e] = None

    def top(self, x):
        while x.parent is not None:
            x = x.parent
        return x

    keys = {}
    inner = {}
    moving = False

    # What is seen

    def rest(self):
        ctx = self.ctx
        ctx.check(self.b.settle(), 'hang', 'the page never comes to rest')
        self.no_errors('coming to rest')
        self.moving = False
        svg = self.b.look('svg')
        ctx.check(len(svg) == 1, 'page', 'no drawing in the page')
        self.seen = Seen(svg[0], self.ctx)
        self.judge_title()
        if self.tree:
            self.judge_tree()
        else:
            self.judge_policy()
        if self.kind == 'pomcp' and self.shown is not None:
            self.judge_tables()
        ctx.probe('judged')
        ctx.event('rest', len(self.seen.nodes), len(self.seen.links))

    def judge_title(self):
        if self.task:
            return
        got = [t['text'] for t in self.seen.titles]
        self.ctx.check(got == [self.title], 'title', lambda: 'the page is '
                       'entitled {} instead of {}'.format(got, self.title))

    def judge_tree(self):
        ctx, s = self.ctx, self.seen
        want = list(self.shown.visible()) if self.shown is not None else []
        ctx.check(len(s.nodes) == len(want), 'nodes', lambda: '{} nodes are '
                  'shown ({}) instead of {} ({})'.format(
                      len(s.nodes), ', '.join(n.label for n in s.nodes[:12]),
                      len(want), ', '.join(x.label for x in want[:12])))
        ctx.check(len(s.links) == max(0, len(want) - 1), 'links', lambda:
                  '{} links between {} nodes'.format(len(s.links), len(want)))
        self.elements, self.keys, self.inner = {}, {}, {}
        if not want:
            ctx.probe('nothing-shown')
            return
        self.drawings += 1
        self.biggest = max(self.biggest, len(want))
        s.connect()
        roots = [n for n in s.nodes if n.up is None]
        ctx.check(len(roots) == 1, 'links', lambda: '{} nodes have no link to '
                  'them: {}'.format(len(roots), [n.label for n in roots]))
        self.compare(roots[0], self.shown, [])
        if not self.task:
            self.judge_arrows(s.links, lambda l: l.raw[5:])

    def compare(self, n, x, path):
        ctx = self.ctx
        where = ' > '.join(path + [x.label])
        ctx.check(n.label == x.label, 'label', lambda: '{} is shown as {!r}'
                  .format(where, n.label))
        self.elements[n.e] = x
        self.inner[n.e] = n.inner
        classes = set(n.cls)
        if self.task:
            self.keys[n.e] = x.d['id']
            closed = bool(x.children) and not x.open
            want = {'node'} | set(x.d['attributes']) | (
                {'collapsed'} if closed else set())
            ctx.check(classes == want, 'attributes', lambda: '{} is shown as '
                      '{} instead of {}'.format(where, sorted(classes),
                                                sorted(want)))
            if not x.children:
                ctx.check(not n.symbols, 'combination', lambda: '{}, which has '
                          'no parts, is shown with {}'.format(
                              where, n.symbols))
            elif x.open:
                sym = SYMBOL.get(x.d['combination'])
                ctx.check(n.symbols == [sym], 'combination', lambda: '{} ({}) '
                          'is shown with {}'.format(
                              where, x.d['combination'], n.symbols))
        else:
            initial = any('initial' in (c['attrs'].get('class') or '').split()
                          for c in n.circles)
            ctx.check(initial == (x.parent is None), 'initial', lambda:
                      '{} is {}marked as the start'.format(
                          where, '' if initial else 'not '))
        if self.kind == 'pomcp':
            d = x.d
            got = n.tip.split('\n')
            want = ['Action: %s' % d['action'], 'Visits: %d' % d['visits']]
            ctx.check(got[:2] == want and len(got) == 3 and
                      got[2].startswith('Value: ') and
                      float(got[2][7:]) == d['value'], 'tip', lambda: '{} '
                      'explains itself as {!r}'.format(where, n.tip))
        want = x.children if x.open else []
        got = sorted(n.down, key=lambda l: l.target.pos[0 if self.task else 1])
        ctx.check(len(got) == len(want), 'children', lambda: '{} is linked to '
                  '{} instead of {}'.format(
                      where, [l.target.label for l in got],
                      [c.label for c in want]))
        for l, c in zip(got, want):
            if not self.task:
                ctx.check(l.raw == 'link %s' % c.obs and l.marker ==
                          'url(#arrowhead_%s)' % c.obs, 'observation', lambda:
                          'the link from {} to {} is shown as {} {} instead of '
                          '{}'.format(where, c.label, l.raw, l.marker, c.obs))
            self.compare(l.target, c, path + [x.label])

    def judge_arrows(self, links, observation, legend=None):
        """Arrowheads exist and differ by observation as the legend says."""
        ctx, s = self.ctx, self.seen
        seen = dict(legend or {})
        for l in links:
            o = observation(l)
            m = re.match(r'url\(#(.*)\)$', l.marker or '')
            if o not in COLOURED and (legend is None or m is None):
                continue
            ctx.check(m and m.group(1) in s.markers, 'arrow', lambda: 'a link '
                      'of {} has the arrowhead {}, which does not exist'.format(
                          o, l.marker))
            c = s.markers[m.group(1)]
            ctx.check(seen.setdefault(o, c) == c, 'arrow', lambda: 'a link of '
                      '{} has an arrowhead {} and the legend says {}'.format(
                          o, c, seen[o]))
        known = [c for o, c in seen.items() if o in COLOURED]
        ctx.check(len(set(known)) == len(known), 'arrow', lambda: 'different '
                  'observations look alike: {}'.format(sorted(seen.items())))
        if known:
            ctx.probe('coloured')

    def judge_tables(self):
        d, ctx = self.tables, self.ctx
        for row, cells, names in (
                ('tr.states', 'th.state', d['states']),
                ('tr.actions', 'th.action', [short('pomcp', a)
                                             for a in d['actions']])):
            got = [c['text'] for c in self.b.look('#page-top ' + row + ' ' +
                                                  cells)]
            ctx.check(got == [str(n) for n in names], 'heading', lambda:
                      'the columns are headed {} instead of {}'.format(
                          got, names))
        for row, n in (('belief', len(d['states'])),
                       ('values', len(d['actions'])),
                       ('augmented.values', len(d['actions'])),
                       ('visits', len(d['actions']))):
            got = self.row(row)
            ctx.check(len(got) == n, 'cells', lambda: '{} cells in the row of '
                      '{} instead of {}'.format(len(got), row, n))
        if self.hover is not None:
            self.judge_values()

    def row(self, name):
        return self.b.look('tr.' + name + (
            ':not(.augmented)' if name == 'values' else '') + ' td')

    def judge_values(self):
        ctx, d, doc = self.ctx, self.hover.d, self.tables

        def numbers(row, want, what):
            got = [None if c['attrs'].get('title') in (None, '') else
                   float(c['attrs']['title']) for c in self.row(row)]
            ok = len(got) == len(want) and all(
                (g is None) == (w is None) and
                (g is None or abs(g - w) <= 1e-9 * max(1., abs(w)))
                for g, w in zip(got, want))
            ctx.check(ok, 'numbers', lambda: 'the {} of {} are shown as {} '
                      'instead of {}'.format(what, self.hover.label, got,
                                             want))

        def best(row, want, marked=' best'):
            known = [w for w in want if w is not None]
            if not known:
                return
            m = max(known)
            got = ['best' in (c['attrs'].get('class') or '').split()
                   for c in self.row(row)]
            exp = [w is not None and abs(w - m) <= 1e-12 * max(1., abs(m))
                   for w in want]
            sure = [w is None or w == m or
                    abs(w - m) > 1e-9 * max(1., abs(m)) for w in want]
            ctx.check(all(g == e for g, e, s in zip(got, exp, sure) if s),
                      'best', lambda: 'the best {} of {} are marked {} among '
                      '{}'.format(row, self.hover.label, got, want))

        numbers('belief', d['belief'], 'beliefs')
        numbers('values', d['values'], 'values')
        best('values', d['values'])
        numbers('visits', d['child_visits'], 'visits')
        got = [c['text'] for c in self.row('visits')]
        want = [str(v) if v > 0 else '' for v in d['child_visits']]
        ctx.check(got == want, 'numbers', lambda: 'the visits of {} read {} '
                  'instead of {}'.format(self.hover.label, got, want))
        if any(d['child_visits']):
            best('visits', d['child_visits'])
        c = doc.get('exploration')
        c = 1. if c is None else c
        known = [v for v in d['values'] if v is not None]
        if known:
            if doc['relative_exploration']:
                c *= max(known) - min(known)
            aug = [None if v is None else v + c * (t or 0.) for v, t in
                   zip(d['values'], d['exploration_terms'])]
            numbers('augmented.values', aug, 'augmented values')
            best('augmented.values', aug)
        got = ['best' in (x['attrs'].get('class') or '').split()
               for x in self.b.look('tr.actions th.action')]
        want = [a == d['action'] for a in doc['actions']]
        ctx.check(got == want, 'best', lambda: 'the actions marked for {} are '
                  '{}'.format(self.hover.label, got))

    def judge_policy(self):
        ctx, s, d = self.ctx, self.seen, self.shown
        ctx.check(bool(s.messages) == self.error, 'inconsistent', lambda:
                  'the page shows {}'.format([m['text'] for m in s.messages])
                  if s.messages else 'the page says nothing of transitions to '
                  'nodes that do not exist')
        if d is None:
            ctx.probe('nothing-shown')
            ctx.check(not s.nodes and not s.links and not s.legend, 'nodes',
                      lambda: '{} nodes, {} links and a legend of {} are shown '
                      'instead of nothing'.format(len(s.nodes), len(s.links),
                                                  len(s.legend)))
            self.elements = {}
            return
        names = ['[%d] %s' % (i, short('policy', a))
                 for i, a in enumerate(d['actions'])]
        if [short('policy', a) for a in d['actions']] != [
                str(a) for a in d['actions']]:
            ctx.probe('abbreviated')
        got = [n.label for n in s.nodes]
        ctx.check(sorted(got) == sorted(names), 'nodes', lambda: 'the nodes '
                  '{} are shown instead of {}'.format(sorted(got),
                                                      sorted(names)))
        self.drawings += 1
        self.biggest = max(self.biggest, len(names))
        s.connect()
        for n in s.nodes:
            start = any('initial' in (c['attrs'].get('class') or '').split()
                        for c in n.circles)
            ctx.check(start == (names.index(n.label) ==
                                int(d['initial'])),
                      'initial', lambda: '{} is {}marked as the start'.format(
                          n.label, '' if start else 'not '))
            if n.e in self.at:
                ctx.check(all(abs(a - b) < 1e-6 for a, b in
                              zip(n.pos, self.at[n.e])), 'dragged', lambda:
                          '{} was put at {} and is at {}'.format(
                              n.label, self.at[n.e], n.pos))
        want = Counter()
        for i, t in enumerate(d['transitions']):
            for o, j in zip(d['observations'], t):
                if j is not None and (self.done or o != 'done'):
                    want[(names[i], str(o), names[j])] += 1
                    if i == j:
                        ctx.probe('self-loop')
        got = Counter((l.source.label, l.raw[5:], l.target.label)
                      for l in s.links)
        ctx.check(got == want, 'links', lambda: 'transitions missing: {}; '
                  'shown without being there: {}'.format(
                      sorted(want - got)[:4], sorted(got - want)[:4]))
        legend = [l['children'][-1]['text'] if l['children'] else ''
                  for l in s.legend]
        ctx.check(legend == [str(o) for o in d['observations']], 'legend',
                  lambda: 'the legend names {} instead of {}'.format(
                      legend, d['observations']))
        fill = {}
        for l, o in zip(s.legend, d['observations']):
            rects = [c for c in l['children'] if c['tag'] == 'rect']
            if rects:
                fill[str(o)] = colour(rects[0])
        self.judge_arrows(s.links, lambda l: l.raw[5:], fill)
        self.elements = {n.e: None for n in s.nodes}


# Reading a drawing ----------------------------------------------------------

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


class SeenNode:
    up = None

    def __init__(self, d):
        self.e = d['e']
        self.cls = (d['attrs'].get('class') or '').split()
        t = re.match(r'translate\(\s*(%s)[\s,]+(%s)\s*\)' % (NUM, NUM),
                     d['attrs'].get('transform') or '')
        self.pos = (float(t.group(1)), float(t.group(2))) if t else None
        texts = [c for c in d['children'] if c['tag'] == 'text']
        self.label = texts[0]['text'] if texts else ''
        self.n_texts = len(texts)
        self.circles = [c for c in d['children'] if c['tag'] == 'circle']
        tips = [c for c in d['children'] if c['tag'] == 'title']
        self.tip = tips[0]['text'] if tips else ''
        self.symbols = [c['text'] for g in d['children'] if g['tag'] == 'g'
                        for c in g['children'] if c['tag'] == 'text']
        self.inner = [d['e']] + [c['e'] for c in d['children']
                                 if c['tag'] in ('rect', 'circle', 'text')]
        rects = [c['attrs'] for c in d['children'] if c['tag'] == 'rect']
        self.anchor = self.pos
        if rects and self.pos:
            r = {k: float(rects[0].get(k) or 0)
                 for k in ('x', 'y', 'width', 'height')}
            self.anchor = (self.pos[0] + r['x'] + r['width'] / 2,
                           self.pos[1] + r['y'] + r['height'] / 2)
        self.down = []


class SeenLink:
    source = target = None

    def __init__(self, d):
        self.raw = d['attrs'].get('class') or ''
        self.marker = d['attrs'].get('marker-end')
        v = [float(x) for x in re.findall(NUM, d['attrs'].get('d') or '')]
        self.ends = ((v[0], v[1]), (v[-2], v[-1])) if len(v) >= 4 else None


class Seen:

    def __init__(self, svg, ctx):
        self.ctx = ctx
        self.nodes, self.links, self.legend = [], [], []
        self.titles, self.messages = [], []
        self.markers = {}
        self.visit(svg)

    def visit(self, d):
        cls = (d['attrs'].get('class') or '').split()
        if d['tag'] == 'g' and ('node' in cls or 'gnode' in cls):
            self.nodes.append(SeenNode(d))
            return
        if d['tag'] == 'g' and 'legend' in cls:
            self.legend.append(d)
            return
        if d['tag'] == 'path' and 'link' in cls:
            self.links.append(SeenLink(d))
        if d['tag'] == 'marker':
            self.markers[d['attrs'].get('id')] = colour(d)
        if d['tag'] == 'text' and 'title' in cls:
            self.titles.append(d)
        if d['tag'] == 'text' and 'message' in cls:
            self.messages.append(d)
        for c in d['children']:
            self.visit(c)

    def connect(self):
        """Finds which nodes each link leads between."""
        ctx = self.ctx
        for n in self.nodes:
            ctx.check(n.pos is not None and n.n_texts == 1, 'node', lambda:
                      'node {} is drawn with {} texts at {}'.format(
                          n.label, n.n_texts, n.pos))
        for i, n in enumerate(self.nodes):
            for m in self.nodes[:i]:
                ctx.check(not near(n.pos, m.pos), 'overlap', lambda: '{} and '
                          '{} are drawn at the same place'.format(
                              n.label, m.label))
        for l in self.links:
            ctx.check(l.ends is not None, 'links', 'a link leads nowhere')
            for k in (0, 1):
                at = [n for n in self.nodes if near(n.anchor, l.ends[k])]
                ctx.check(len(at) == 1, 'links', lambda: 'a link {} {}, where '
                          'no node is'.format(('starts at', 'leads to')[k],
                                              l.ends[k]))
                if k:
                    l.target = at[0]
                else:
                    l.source = at[0]
            l.source.down.append(l)
            l.target.up = l


COLOURED = ('none', 'yes', 'no', 'error')


def colour(d):
    return (d['style'].get('fill') or d['attrs'].get('fill') or '').lower()


def near(a, b):
    return abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6
