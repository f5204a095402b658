"""C36: the visualization pages display what is in the files."""
import json
import os
import re
import subprocess

from .. import core, gen, policies, pomcpref
from . import c11, c19

PROPERTY = 'C36'
RULE = ('the pages of visualization/ are run in node, in a small document with stand-ins for d3 (versions 3 and 4), jQuery '
        'and roslib, on files written by the library itself (hierarchical tasks, policies, trajectories of beliefs, trees '
        'of the planner on explicit and supportive models) and on the files shipped with the pages, and sessions of '
        'clicks, hovering, buttons, selected files and ROS messages are played. After every action everything displayed '
        'is compared with an independent model of what should be visible: nodes, texts, classes, order, links with their '
        'ends and observations, tables of beliefs and values. '
        'Non-trivial: distinct files and sessions.')
ASSUMPTIONS = ['node runs the scripts as a browser does; d3, jQuery and roslib are not installed: the stand-ins draw '
               'transitions at once and place nodes by a simpler layout, which keeps the order of children',
               'actions of the user come after the animations of the previous one']

DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'js', 'page.js')
MARKERS = ('yes', 'no', 'none', 'error')


def run(ctx):
    ctx.cases('tasks', ctx.n(250, 3000), tasks)
    ctx.cases('messages', ctx.n(150, 2000), messages)
    ctx.cases('policies', ctx.n(250, 4000), graphs)
    ctx.cases('trajectories', ctx.n(200, 3000), trajectories)
    ctx.cases('planner', ctx.n(250, 3000), planner)
    ctx.cases('shipped', ctx.n(8, 40), shipped)
    ctx.require('displays compared', ctx.n(4000, 50000))
    ctx.require('nodes displayed', ctx.n(15000, 200000))
    ctx.require('links displayed', ctx.n(10000, 120000))
    ctx.require('tables compared', ctx.n(500, 6000))
    ctx.require('arrows compared', ctx.n(2000, 30000))


# Playing a page


def play(case, page, files, actions):
    job = {'dir': os.path.join(core.REPO, 'visualization'), 'page': page, 'files': files, 'actions': actions}
    p = subprocess.run(['node', DRIVER], input=json.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=55)
    if p.returncode or not p.stdout:
        raise core.Inconclusive('page driver: ' + p.stderr[-800:])
    out = json.loads(p.stdout)
    case.event('pages: ' + page)
    for k, s in enumerate(out['steps']):
        for e in s['errors']:
            if 'not in the stand-in' in e:
                raise core.Inconclusive(e)
        case.equal(s['errors'], [], 'errors of {} after {}'.format(page, actions[:k]))
    return out


class Display(object):
    """Elements displayed, in document order."""

    def __init__(self, root):
        self.all = []
        self._walk(root, None)

    def _walk(self, e, parent):
        e['parent'] = parent
        self.all.append(e)
        for c in e['kids']:
            self._walk(c, e)

    def having(self, tag, cls, root=None):
        es = self.all if root is None else Display.below(root)
        return [e for e in es if e['tag'] == tag and cls in classes(e)]

    @staticmethod
    def below(e):
        out = []
        for c in e['kids']:
            out.append(c)
            out.extend(Display.below(c))
        return out

    def id(self, i):
        return [e for e in self.all if e['attrs'].get('id') == i][0]


def classes(e):
    return e['attrs'].get('class', '').split()


def text(e):
    return e.get('text', '') + ''.join(text(c) for c in e['kids'] if c['tag'] == 'tspan')


def position(e):
    m = re.match(r'^translate\(\s*([-+.\de]+)[\s,]+([-+.\de]+)\s*\)$', e['attrs'].get('transform', ''))
    return (float(m.group(1)), float(m.group(2))) if m else None


def ends(case, e):
    xs = [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', e['attrs'].get('d', ''))]
    case.check(len(xs) >= 4, 'a link is drawn as {!r}', e['attrs'].get('d'))
    return tuple(xs[:2]), tuple(xs[-2:])


def near(p, q):
    return abs(p[0] - q[0]) < 1e-3 and abs(p[1] - q[1]) < 1e-3


def sound(case, display, what):
    """Nothing undefined is displayed."""
    for e in display.all:
        for k, v in list(e['attrs'].items()) + list(e['style'].items()) + [('text', e.get('text', ''))]:
            if re.search(r'\b(NaN|undefined|Infinity)\b|\[object|\bfunction\b', v):
                case.fail('{} of {} is {!r} {}'.format(k, e['tag'], v, what))
    ids = [e['attrs']['id'] for e in display.all if 'id' in e['attrs']]
    case.equal(len(ids), len(set(ids)), 'distinct ids ' + what)


# Trees


class Tree(object):
    """What is visible of a tree whose nodes are dictionaries with '_uid'."""

    def __init__(self, root, depth):
        self.root = root
        self.hidden = set()
        self.nodes = {}
        stack = [(root, 0, None)]
        while stack:
            n, d, p = stack.pop()
            self.nodes[n['_uid']] = (n, d, p)
            if n.get('children') and d >= depth:
                self.hidden.add(n['_uid'])
            stack.extend((c, d + 1, n) for c in n.get('children') or [])

    def visible(self):
        out, stack = [], [(self.root, None, 0)]
        while stack:
            n, p, d = stack.pop()
            out.append((n, p, d))
            if n['_uid'] not in self.hidden:
                stack.extend((c, n, d + 1) for c in reversed(n.get('children') or []))
        return out

    def click(self, uid):
        if self.nodes[uid][0].get('children'):
            self.hidden ^= {uid}


def mark(root, prefix):
    """Identifies the nodes."""
    stack, n = [root], 0
    while stack:
        x = stack.pop()
        x['_uid'] = '{}{}'.format(prefix, n)
        n += 1
        stack.extend(x.get('children') or [])
    return root


def check_tree(case, display, tree, label, observation, across, what, offset=None):
    """Nodes and links displayed are those of the tree. across: 0 when siblings are side by side, 1 when one above the
    other. Returns the groups by node."""
    groups = {}
    for e in display.all:
        if e['tag'] == 'g' and 'uid' in e and 'node' in classes(e):
            case.check(e['uid'] not in groups, 'node {} is displayed twice {}', e['uid'], what)
            groups[e['uid']] = e
    vis = tree.visible()
    case.equal(sorted(groups), sorted(n['_uid'] for n, _, _ in vis), 'nodes displayed ' + what)
    pos = {u: position(e) for u, e in groups.items()}
    case.check(None not in pos.values(), 'positions {} {}', pos, what)
    case.equal(len(set(pos.values())), len(pos), 'distinct positions ' + what)
    links = display.having('path', 'link')
    case.equal(len(links), len(vis) - 1, 'links displayed ' + what)
    by_ends = [(ends(case, e), e) for e in links]
    for n, p, d in vis:
        e = groups[n['_uid']]
        labels = [c for c in e['kids'] if c['tag'] == 'text']
        case.equal([text(c) for c in labels], [label(n)], 'text of a node ' + what)
        case.event('nodes displayed')
        kids = n.get('children') or [] if n['_uid'] not in tree.hidden else []
        xs = [pos[c['_uid']][across] for c in kids]
        case.check(all(x < y for x, y in zip(xs, xs[1:])), 'children of {} are not in order {}', n['_uid'], what)
        for c in kids:
            case.check(pos[c['_uid']][1 - across] > pos[n['_uid']][1 - across], 'a child is not further than its parent {}', what)
        if p is None:
            continue
        a, b = pos[p['_uid']], pos[n['_uid']]
        if offset is not None:
            dx, dy = offset(labels[0])
            a, b = (a[0] + dx, a[1] + dy), (b[0] + dx, b[1] + dy)
        found = [e for (f, t), e in by_ends if near(f, a) and near(t, b)]
        case.equal(len(found), 1, 'number of links from {} to {} {}'.format(p['_uid'], n['_uid'], what))
        case.event('links displayed')
        o = observation(p, n)
        if o is not None:
            case.equal(sorted(classes(found[0])), sorted(['link'] + o.split()), 'class of the link to {} {}'.format(n['_uid'], what))
            case.equal(found[0]['attrs'].get('marker-end'), 'url(#arrowhead_{})'.format(o), 'arrow of the link ' + what)
            if o in MARKERS:
                case.check(any(x['tag'] == 'marker' and x['attrs'].get('id') == 'arrowhead_' + o for x in display.all),
                           'no arrow {} {}', o, what)
    case.event('displays compared')
    return groups


# Hierarchical tasks

WORDS = (('REQUEST-ACTION', ' '), ('-OF-OBJECT', ' '), ('ARTIFACT-', ' '), (' ARTIFACT', ' '),
         ('Parallelized Subtasks of ', ' '), ('FOOT_BRACKET', 'bracket-foot'))
GLYPHS = {'Parallel': '||', 'Sequential': '→', 'Alternative': 'v'}


def cleaned(name):
    for a, b in WORDS:
        name = name.replace(a, b, 1)
    return name


def random_task(case, tag, max_depth=6):
    """A file written by the library."""
    from task_models.task import HierarchicalTask, AbstractAction
    r = case.rng
    shared = r.random() < .3        # several nodes with the same name

    def name(i):
        s = '{} {}{}'.format(r.choice(['Take', 'GET(screw)', 'hold', 'Mount leg']), tag, i % 2 if shared else i)
        k = r.random()
        if k < .1:
            s = r.choice(['REQUEST-ACTION', 'ARTIFACT-', 'Parallelized Subtasks of ']) + s
        elif k < .2:
            s += r.choice(['-OF-OBJECT', ' ARTIFACT', '-FOOT_BRACKET'])
        return s

    t = gen.random_tree(case, r.randint(0, max_depth), r.randint(1, 3), name, max_leaves=10 ** 9, max_parallel=3,
                        p_leaf=r.choice([.2, .45]))
    size = [0]

    def rename(t):
        size[0] += 1
        if t[0] == 'leaf':
            return t
        return (t[0], name(1000 + size[0]), [rename(c) for c in t[2]])

    htm = gen.tree_to_htm(rename(t), AbstractAction)

    def highlight(n):
        n.highlighted = r.random() < .2
        for c in n.children if n.kind else ():
            highlight(c)
    highlight(htm)
    d = json.loads(json.dumps(HierarchicalTask(htm).as_dictionary(name='task ' + tag)))

    def attributes(n):
        if r.random() < .2:
            n['attributes'].append(r.choice(['human', 'robot', 'subtask']))
        if r.random() < .3 and 'children' not in n:
            n['children'] = []      # as other programs write leaves
        for c in n.get('children', []):
            attributes(c)
    attributes(d['nodes'])
    mark(d['nodes'], tag)
    return d


def count(n):
    return 1 + sum(map(count, n.get('children') or []))


def check_task(case, display, tree, what):
    groups = check_tree(case, display, tree, lambda n: cleaned(n['name']), lambda p, n: None, 0, what,
                        lambda e: (float(e['attrs']['x']), float(e['attrs']['y'])))
    for n, _, _ in tree.visible():
        e = groups[n['_uid']]
        kids = bool(n.get('children'))
        hidden = n['_uid'] in tree.hidden
        case.equal(sorted(set(classes(e))), sorted(set(['node'] + n['attributes'] + ['collapsed'] * hidden)),
                   'classes of {} {}'.format(n['_uid'], what))
        label = [c for c in e['kids'] if c['tag'] == 'text'][0]
        boxes = [c for c in e['kids'] if c['tag'] == 'rect']
        case.equal(len(boxes), 1, 'boxes of a node ' + what)
        w = float(boxes[0]['attrs']['width'])
        case.check(abs(float(boxes[0]['attrs']['x']) + w / 2 - float(label['attrs']['x'])) < 1e-6 and
                   w >= 7 * len(text(label)), 'text {!r} in a box of width {} at {} {}', text(label), w,
                   boxes[0]['attrs']['x'], what)
        glyphs = [text(x) for c in e['kids'] if 'combination' in classes(c) for x in Display.below(c) if x['tag'] == 'text']
        if not kids:
            case.equal(glyphs, [], 'combination of a leaf ' + what)
        elif hidden:
            case.check(glyphs in ([], [GLYPHS[n['combination']]]), 'combination {} of {} {}', glyphs, n, what)
        else:
            case.equal(glyphs, [GLYPHS[n['combination']]], 'combination of {} {}'.format(n['_uid'], what))
            case.event('combinations displayed')
    return groups


def view(e):
    """Translation and scale from an element to the picture."""
    x, y, k = 0., 0., 1.
    while e is not None and e['tag'] != 'svg':
        t = e['attrs'].get('transform', '')
        for kind, args in reversed(re.findall(r'(translate|scale)\(([^)]*)\)', t)):
            v = [float(a) for a in re.split(r'[\s,]+', args.strip())]
            if kind == 'translate':
                x, y = x + v[0], y + v[1]
            else:
                x, y, k = x * v[0], y * v[0], k * v[0]
        e = e['parent']
    return x, y, k


def zoomed(case, display, groups, zoom, what):
    """The whole task is in the picture unless the user zoomed."""
    width, height = [float(x) for x in [e for e in display.all if e['tag'] == 'svg'][0]['attrs']['viewBox'].split()[2:]]
    for e in groups.values():
        if zoom is None:
            x, y, k = view(e)
            r = {a: float(v) for c in e['kids'] if c['tag'] == 'rect' for a, v in c['attrs'].items() if a in ('x', 'width', 'height')}
            box = (x + k * r.get('x', 0), y, x + k * (r.get('x', 0) + r['width']), y + k * r['height'])
            case.check(-1e-3 <= box[0] and box[2] <= width + 1e-3 and -1e-3 <= box[1] and box[3] <= height + 1e-3,
                       'node {} is at {} of a picture of {} {}', e['uid'], box, (width, height), what)
            case.event('nodes in the picture')
    if zoom is not None:
        user_zoom(case, groups.values(), zoom, what)


def user_zoom(case, elements, zoom, what):
    """The picture is moved and scaled as the user wants."""
    for e in elements:
        while e['parent']['tag'] != 'svg':
            e = e['parent']
        got = view(e)
        case.check(all(abs(a - b) < 1e-6 * max(1, abs(b)) for a, b in zip(got, zoom)), 'picture at {} instead of {} {}', got, zoom, what)
        case.event('zoomed nodes')


def random_zoom(case):
    r = case.rng
    z = (round(r.uniform(-500, 500), 2), round(r.uniform(-300, 300), 2), round(r.uniform(.2, 2), 3))
    return {'do': 'zoom', 'x': z[0], 'y': z[1], 'k': z[2]}, z


def tasks(case):
    r = case.rng
    files = {}
    for i in range(r.randint(1, 3)):
        files['full_chair.json' if i == 0 else 'task {}.json'.format(i)] = random_task(case, 'abc'[i])
    case.key(json.dumps(files, sort_keys=True))
    session(case, 'htm/htm.html', files, 'full_chair.json', 3)


def session(case, page, files, first, depth):
    r = case.rng
    current, tree = first, Tree(files[first]['nodes'], depth)
    actions, states = [], [(current, set(tree.hidden), None)]
    for _ in range(r.randint(1, 10)):
        k = r.random()
        zoom = None
        if k < .1:
            a, zoom = random_zoom(case)
            actions.append(a)
        elif k < .6:
            uid = r.choice(tree.visible())[0]['_uid']
            actions.append({'do': 'click', 'uid': uid})
            tree.click(uid)
        elif k < .85:
            b = r.choice(['htm-refresh', 'htm-expand', 'htm-collapse'])
            actions.append({'do': 'press', 'id': b})
            depth = {'htm-refresh': depth, 'htm-expand': 2000, 'htm-collapse': 3}[b]
            tree = Tree(tree.root, depth)
        else:
            current = r.choice(sorted(files))
            actions.append({'do': 'file', 'name': current, 'bare': r.random() < .5})
            tree = Tree(files[current]['nodes'], depth)
        states.append((current, set(tree.hidden), zoom))
    out = play(case, page, {k: json.dumps(v) for k, v in files.items()}, actions)
    for i, (s, (name, hidden, zoom)) in enumerate(zip(out['steps'], states)):
        display = Display(s['display'])
        what = '({}, after {})'.format(page, actions[:i])
        t = Tree(files[name]['nodes'], 10 ** 9)
        t.hidden = hidden
        sound(case, display, what)
        zoomed(case, display, check_task(case, display, t, what), zoom, what)
    case.note(files={k: count(v['nodes']) for k, v in files.items()}, actions=actions)


def messages(case):
    """Tasks that come as messages."""
    r = case.rng
    page = 'htm-ros-subscriber/htm-ros-subscriber.html'
    depth, tree, actions, states = 5, None, [], [None]
    status = 'connecting'
    stati = [status]
    for i in range(r.randint(1, 8)):
        k = r.random()
        if tree is None and k < .6 or k < .3:
            d = random_task(case, 'm{}-'.format(i), 7)
            actions.append({'do': 'ros', 'topic': '/web_interface/json', 'data': json.dumps(d)})
            tree = Tree(d['nodes'], depth)
        elif k < .5:
            e = r.choice(['connection', 'close', 'error'])
            actions.append({'do': 'rosevent', 'type': e})
            status = {'connection': 'connected', 'close': 'closed', 'error': 'error'}[e]
        elif k < .7:
            b = r.choice(['htm-refresh', 'htm-expand', 'htm-collapse'])
            actions.append({'do': 'press', 'id': b})
            depth = {'htm-refresh': depth, 'htm-expand': 2000, 'htm-collapse': 3}[b]
            if tree is not None:
                tree = Tree(tree.root, depth)
        elif tree is not None:
            uid = r.choice(tree.visible())[0]['_uid']
            actions.append({'do': 'click', 'uid': uid})
            tree.click(uid)
        if len(states) <= len(actions):
            states.append(tree and (tree.root, set(tree.hidden)))
            stati.append(status)
    out = play(case, page, {}, actions)
    case.equal(out['topics'], ['/web_interface/json'], 'topics')
    case.equal(len(out['urls']), 1, 'connections to the bridge')
    case.equal(out['requests'], [], 'files loaded')
    for i, (s, state, status) in enumerate(zip(out['steps'], states, stati)):
        display = Display(s['display'])
        what = '({}, after {} messages and {})'.format(
            page, sum(a['do'] == 'ros' for a in actions[:i]), [a for a in actions[:i] if a['do'] != 'ros'])
        sound(case, display, what)
        if state is None:
            case.equal([e for e in display.all if 'uid' in e], [], 'nodes before any message')
        else:
            t = Tree(state[0], 10 ** 9)
            t.hidden = state[1]
            zoomed(case, display, check_task(case, display, t, what), None, what)
        shown = [x for x in ('connecting', 'connected', 'closed', 'error') if display.id(x)['style'].get('display') != 'none']
        case.check(status in shown, 'status {} is not among {} {}', status, shown, what)
        if status == 'connected':
            case.equal(shown, ['connected'], 'status ' + what)
        if status != 'connecting':
            case.check('connecting' not in shown, 'status {} {}', shown, what)
        if status != 'connected':
            case.check('connected' not in shown, 'status {} {}', shown, what)
        case.event('stati compared')
    case.key(json.dumps(actions))
    case.note(actions=[a for a in actions if a['do'] != 'ros'])


# Policies

NAMES = (('intention', 'int'), ('phy', 'P '), ('com-', 'C '), ('-get', ' Get'), ('-snap', ' Snap'), ('-left-leg', 'LL'),
         ('-right-leg', 'RL'), ('-central-frame', 'CF'))


def short(name, dash=False):
    for a, b in NAMES:
        name = name.replace(a, b.replace(' ', '-') if dash and a in ('phy', 'com-') else b, 1)
    return name


def action_names(case, n):
    r = case.rng
    return ['{}{}{}'.format(r.choice(['', '', 'phy-get-', 'com-', 'intention ']), 'xyz'[i % 3] + str(i),
                            r.choice(['', '', '-left-leg', '-snap', '-central-frame'])) for i in range(n)]


def observation_names(case, n=None):
    r = case.rng
    known = ['yes', 'no', 'none', 'error', 'done', 'seen', 'other']
    if n is None:
        return r.sample(known, r.randint(1, 5))
    return r.sample(known + ['obs{}'.format(i) for i in range(n - len(known))], n)


def stored_policy(case, spoiled):
    r = case.rng
    parts = policies.graph_parts(case, n_states=2, observations=observation_names(case), actions=action_names(case, r.randint(1, 4)),
                                 max_nodes=r.choice([2, 6, 14]))
    path = os.path.join(case.ctx.scratch, 'policy-{}-{}.json'.format(os.getpid(), case.index))
    policies.make(parts).save_as_json(path)
    with open(path) as f:
        d = json.load(f)
    os.remove(path)
    if spoiled:
        i, j = r.randrange(len(d['actions'])), r.randrange(len(d['observations']))
        d['transitions'][i][j] = len(d['actions']) + r.choice([0, 0, 1, 5])
    return d


def broken(d):
    return any(t is not None and t >= len(d['actions']) for row in d['transitions'] for t in row)


def check_policy(case, display, name, d, done, what, zoom=(0., 0., 1.)):
    sound(case, display, what)
    titles = [text(e) for e in display.all if e['tag'] == 'text' and 'title' in classes(e)]
    case.equal(titles, [name.replace('.json', '')], 'title ' + what)
    n = len(d['actions'])
    labels = [e for e in display.all if e['tag'] == 'text' and 'nodetext' in classes(e)]
    arrows = display.having('path', 'link')
    errors = [e for e in display.all if e['tag'] == 'text' and 'error' in classes(e)]
    if broken(d):
        case.equal((len(errors), labels, arrows), (1, [], []), 'display of a policy with missing nodes ' + what)
        case.event('errors displayed')
        return
    case.equal(errors, [], 'errors displayed ' + what)
    case.equal(sorted(map(text, labels)), sorted('[{}] {}'.format(i, short(a)) for i, a in enumerate(d['actions'])),
               'nodes ' + what)
    pos = {}
    for e in labels:
        i = int(re.match(r'\[(\d+)\]', text(e)).group(1))
        pos[i] = position(e['parent'])
        case.check(pos[i] is not None, 'node {} is at {!r} {}', i, e['parent']['attrs'].get('transform'), what)
        circle = [c for c in e['parent']['kids'] if c['tag'] == 'circle']
        case.equal(len(circle), 1, 'circles of a node ' + what)
        for x in circle + [e]:
            case.equal('initial' in classes(x), i == int(d['initial']), 'initial mark of node {} {}'.format(i, what))
        case.event('nodes displayed')
    case.equal(len(set(pos.values())), n, 'distinct positions ' + what)
    got = []
    for e in arrows:
        f, t = ends(case, e)
        found = [[i for i in pos if near(pos[i], p)] for p in (f, t)]
        case.check(all(len(x) == 1 for x in found), 'an arrow from {} to {} {}', f, t, what)
        got.append((found[0][0], found[1][0], ' '.join(c for c in classes(e) if c != 'link'), e['attrs'].get('marker-end')))
        if f == t:
            case.check(len(set(re.findall(r'[-.\d]+,[-.\d]+', e['attrs']['d']))) > 2, 'a loop is drawn as {} {}', e['attrs']['d'], what)
        case.event('arrows compared')
    exp = []
    for i, row in enumerate(d['transitions']):
        for o, t in zip(d['observations'], row):
            if t is not None and (done or o != 'done'):
                exp.append((i, t, o, 'url(#arrowhead{})'.format('_' + o if o in MARKERS else '')))
    case.equal(sorted(got), sorted(exp), 'arrows ' + what)
    ids = [e['attrs'].get('id') for e in display.all if e['tag'] == 'marker']
    case.check(all(m[5:-1] in ids for _, _, _, m in got), 'arrows {} of {} {}', ids, got, what)
    legend = display.having('g', 'legend')
    case.equal([[text(x) for x in Display.below(e) if x['tag'] == 'text'] for e in legend], [[o] for o in d['observations']],
               'legend ' + what)
    places = [position(e) for e in legend]
    case.equal(len(set(places)), len(places), 'places in the legend ' + what)
    # the colours of arrows and of the legend agree
    colour = {e['attrs'].get('id'): e['style'].get('fill') for e in display.all if e['tag'] == 'marker'}
    for e, o in zip(legend, d['observations']):
        fill = [x['style'].get('fill') for x in Display.below(e) if x['tag'] == 'rect']
        case.equal(fill, [colour['arrowhead' + ('_' + o if o in MARKERS else '')]], 'colour of {} {}'.format(o, what))
    user_zoom(case, [e['parent'] for e in labels], zoom, what)
    case.event('displays compared')
    return pos


def graphs(case):
    r = case.rng
    files = {'test.json': stored_policy(case, False)}
    for i in range(r.randint(0, 2)):
        files['policy {}.json'.format(i)] = stored_policy(case, r.random() < .25)
    actions, states, current, done = [], [('test.json', True, (0., 0., 1.), None)], 'test.json', True
    zoom = (0., 0., 1.)
    for _ in range(r.randint(0, 6)):
        k, drag = r.random(), None
        d = files[current]
        if r.random() < .1:
            a, zoom = random_zoom(case)
            actions.append(a)
        elif r.random() < .15 and not broken(d):
            drag = (r.randrange(len(d['actions'])), [(r.randint(-50, 50), r.randint(-50, 50)) for _ in range(r.randint(1, 3))])
            actions.append({'do': 'drag', 'label': '[{}]'.format(drag[0]), 'by': drag[1]})
        elif k < .5:
            current = r.choice(sorted(files))
            actions.append({'do': 'file', 'name': current, 'bare': r.random() < .5})
        elif k < .7:
            actions.append({'do': 'press', 'id': 'policy-refresh'})
        else:
            done = r.random() < .5
            actions.append({'do': 'press', 'id': 'd_op_on' if done else 'd_op_off'})
        if actions[-1]['do'] in ('file', 'press'):
            zoom = (0., 0., 1.)
        states.append((current, done, zoom, drag))
    out = play(case, 'policy/policy.html', {k: json.dumps(v) for k, v in files.items()}, actions)
    before = None
    for i, (s, (name, done, zoom, drag)) in enumerate(zip(out['steps'], states)):
        what = '(policy, after {})'.format(actions[:i])
        pos = check_policy(case, Display(s['display']), name, files[name], done, what, zoom)
        if drag is not None:
            n, by = drag
            p, q = before.pop(n), pos.pop(n)
            case.check(near(q, (p[0] + sum(x for x, _ in by), p[1] + sum(y for _, y in by))), 'node dragged from {} to {} {}', p, q, what)
            case.equal(pos, before, 'positions of other nodes ' + what)
            pos[n] = q
            case.event('nodes dragged')
        before = pos
    case.key(json.dumps(files, sort_keys=True), json.dumps(actions))
    case.note(files=sorted(files), actions=actions)


# Trajectories and trees of the planner


def trajectory_file(case, tag):
    from task_models.lib.pomdp import GraphPolicyBeliefRunner
    r = case.rng
    o = r.randint(9, 16) if r.random() < .1 else r.randint(1, 4)
    parts = gen.pomdp_parts(case, s=r.randint(1, 4), a=r.randint(1, 4), o=o, named=True)
    parts['observations'] = observation_names(case, len(parts['observations']))
    parts['actions'] = action_names(case, len(parts['actions']))
    g = policies.graph_parts(case, n_states=len(parts['states']), observations=parts['observations'], actions=parts['actions'])
    m = gen.make_pomdp(parts)
    runner = GraphPolicyBeliefRunner(policies.make(g), m)
    path = os.path.join(case.ctx.scratch, 'traj-{}-{}.json'.format(os.getpid(), case.index))
    runner.save_trajectories_from_starts(path, horizon=r.randint(0, 4) if o < 5 else 1)
    with open(path) as f:
        d = json.load(f)
    os.remove(path)
    mark(d['graphs'][0], tag)
    return d


def initial_marks(case, groups, tree, what):
    for u, e in groups.items():
        for x in e['kids']:
            if x['tag'] in ('circle', 'text'):
                case.equal('initial' in classes(x), u == tree.root['_uid'], 'initial mark of {} {}'.format(u, what))


def explore(case, files, first, button, hover=False, n=10):
    """A session on the page of a tree: actions and what is visible after each."""
    r = case.rng
    current, tree = first, Tree(files[first]['graphs'][0], 1)
    zoom = (0., 0., 1.)
    actions, states, hovered = [], [(first, set(tree.hidden), None, zoom)], None
    for _ in range(r.randint(1, n)):
        k = r.random()
        if r.random() < .1:
            a, zoom = random_zoom(case)
            actions.append(a)
        elif k < .5 and hover:
            hovered = r.choice(tree.visible())[0]['_uid']
            actions.append({'do': 'hover', 'uid': hovered})
        elif k < .8:
            closed = [x for x, _, _ in tree.visible() if x['_uid'] in tree.hidden]
            uid = r.choice(closed if closed and r.random() < .6 else [x for x, _, _ in tree.visible()])['_uid']
            actions.append({'do': 'click', 'uid': uid})
            tree.click(uid)
        elif k < .9:
            actions.append({'do': 'press', 'id': button})
            tree, hovered, zoom = Tree(files[current]['graphs'][0], 1), None, (0., 0., 1.)
        else:
            current = r.choice(sorted(files))
            actions.append({'do': 'file', 'name': current, 'bare': r.random() < .5})
            tree, hovered, zoom = Tree(files[current]['graphs'][0], 1), None, (0., 0., 1.)
        states.append((current, set(tree.hidden), hovered, zoom))
    return actions, states


def trajectories(case):
    files = {'trajectories.json': trajectory_file(case, 'a')}
    if case.rng.random() < .5:
        files['other.json'] = trajectory_file(case, 'b')
    actions, states = explore(case, files, 'trajectories.json', 'trajectory-refresh')
    show_trajectories(case, files, actions, states)


def show_trajectories(case, files, actions, states):
    out = play(case, 'trajectories/trajectories.html', {k: json.dumps(v) for k, v in files.items()}, actions)
    for i, (s, (name, hidden, _, zoom)) in enumerate(zip(out['steps'], states)):
        display, what = Display(s['display']), '(trajectories, after {})'.format(actions[:i])
        tree = Tree(files[name]['graphs'][0], 10 ** 9)
        tree.hidden = hidden
        sound(case, display, what)
        groups = check_tree(case, display, tree, lambda n: '[{}] {}'.format(n['node'], short(n['action'])),
                            lambda p, n: p['observations'][[c['_uid'] for c in p['children']].index(n['_uid'])], 1, what)
        initial_marks(case, groups, tree, what)
        user_zoom(case, groups.values(), zoom, what)
        titles = [text(e) for e in display.all if e['tag'] == 'text' and 'title' in classes(e)]
        case.equal(titles, [name.replace('.json', '')], 'title ' + what)
    case.key(json.dumps(files, sort_keys=True), json.dumps(actions))
    case.note(files=sorted(files), actions=actions)


def planner_file(case, tag):
    from task_models.lib.belief import MaxSamplesReached
    r = case.rng
    kw = {}
    ops = [('plan', r.randint(0, 40)) for _ in range(2)]
    if r.random() < .5:
        belief = r.choice(['array', 'particle'])
        o = r.randint(9, 16) if r.random() < .15 else r.randint(1, 4)
        parts = gen.pomdp_parts(case, s=r.randint(1, 5), a=r.randint(1, 4), o=o, named=True)
        parts['observations'] = observation_names(case, len(parts['observations']))
        ops.extend(('plan', 60) for _ in range(2) if o > 8)
        parts['actions'] = action_names(case, len(parts['actions']))
        model = gen.make_pomdp(parts)
    else:
        belief = 'particle'
        model, _ = c11.random_process(case, max_leaves=3, max_objects=2)
        kw = {'belief_as_quotient': r.random() < .8}
    runner = c19.grow(case, model, c19.settings(case, belief, False), ops, r.choice([1, 2, 4]))
    d = c19.file_of(case, runner, **kw)
    mark(d['graphs'][0], tag)
    return d


def cells(display, row):
    """Texts, titles, classes and colours of the cells of a row."""
    rows = [e for e in display.all if e['tag'] == 'tr' and sorted(classes(e)) == sorted(row.split())]
    return [c for c in rows[0]['kids'] if c['tag'] == 'td' or c['tag'] == 'th' and 'legend' not in classes(c)]


def amount(case, colour, what):
    m = re.match(r'^[A-Za-z]+\((.*)\)$', colour or '')
    return float(m.group(1)) if m else None


def ordered(case, values, tds, what):
    """Higher values have stronger colours; missing ones have none."""
    pairs = []
    for v, c in zip(values, tds):
        a = amount(case, c['style'].get('background'), what)
        case.equal(a is None, v is None, 'colour {} of {} {}'.format(c['style'], v, what))
        if v is not None:
            case.check(-1e-9 <= a <= 1 + 1e-9, 'colour {} of {} {}', a, v, what)
            pairs.append((v, a))
    pairs.sort()
    return pairs


def increasing(case, pairs, sign, what):
    scale = max([abs(v) for v, _ in pairs] or [0])
    for (v, a), (w, b) in zip(pairs, pairs[1:]):
        if w - v > 1e-6 * scale:
            case.check(sign * (b - a) > 0, 'colours {} of {} {}', (a, b), (v, w), what)
        elif w == v:
            case.check(abs(a - b) < 1e-9, 'colours {} of {} {}', (a, b), (v, w), what)


def check_tables(case, display, d, node, what):
    states, acts = d['states'], d['actions']
    case.equal([text(c) for c in cells(display, 'states')], list(map(str, states)), 'names of states ' + what)
    case.equal([text(c) for c in cells(display, 'actions')], [short(a, True) for a in acts], 'names of actions ' + what)
    rows = {k: [c for c in cells(display, k) if c['tag'] == 'td'] for k in ('belief', 'values', 'augmented values', 'visits')}
    case.equal({k: len(v) for k, v in rows.items()}, {'belief': len(states), 'values': len(acts), 'augmented values': len(acts),
                                                      'visits': len(acts)}, 'cells ' + what)
    if node is None:
        for k, names in (('belief', states), ('values', acts), ('augmented values', acts), ('visits', acts)):
            case.equal([c['attrs'].get('title') for c in rows[k]], list(map(str, names)), 'titles of {} {}'.format(k, what))
            case.equal([(text(c), c['style'], 'best' in classes(c)) for c in rows[k]], [('', {}, False)] * len(names),
                       'empty cells of {} {}'.format(k, what))
        case.check(not any('best' in classes(c) for c in cells(display, 'actions')), 'an action is marked {}', what)
        case.event('empty tables compared')
        return
    numbers(case, rows['belief'], node['belief'], 'belief ' + what)
    increasing(case, ordered(case, node['belief'], rows['belief'], what), 1, 'belief ' + what)
    values = node['values']
    known = [v for v in values if v is not None]
    c = 1. if d['exploration'] is None else d['exploration']
    if d['relative_exploration'] and known:
        c *= max(known) - min(known)
    augmented = [None if v is None else v + c * t for v, t in zip(values, node['exploration_terms'])]
    for k, vs in (('values', values), ('augmented values', augmented)):
        w = '{} {}'.format(k, what)
        numbers(case, rows[k], vs, w)
        known = [v for v in vs if v is not None]
        if any(known):
            increasing(case, ordered(case, vs, rows[k], w), -1, w)
        if known:
            scale = max(map(abs, known))
            for v, x in zip(vs, rows[k]):
                if v is None or v < max(known) - 1e-9 * scale:
                    case.check('best' not in classes(x), '{} is marked as best of {} {}', v, vs, w)
                elif k == 'values' or len([u for u in known if u > max(known) - 1e-9 * scale]) == 1:
                    if v == max(known) or k != 'values':
                        case.check('best' in classes(x), '{} is not marked as best of {} {}', v, vs, w)
    case.equal([i for i, x in enumerate(cells(display, 'actions')) if 'best' in classes(x)], [acts.index(node['action'])],
               'action marked ' + what)
    visits = node['child_visits']
    case.equal([text(x) for x in rows['visits']], [str(v) if v else '' for v in visits], 'visits ' + what)
    case.equal([x['attrs'].get('title') for x in rows['visits']], list(map(str, visits)), 'titles of visits ' + what)
    m = max(visits)
    if m:
        case.equal(['best' in classes(x) for x in rows['visits']], [v == m for v in visits], 'most visited ' + what)
        case.equal(['big-value' in classes(x) for x in rows['visits']], [v > .5 * m for v in visits], 'big values ' + what)
        increasing(case, ordered(case, [v or None for v in visits], rows['visits'], what), 1, 'visits ' + what)
    case.event('tables compared')


def numbers(case, tds, values, what):
    for c, v in zip(tds, values):
        t = c['attrs'].get('title')
        if v is None:
            case.check(t in (None, '', 'null'), 'title {!r} of a missing value, {}', t, what)
        else:
            case.check(t is not None and re.match(r'^[-+.\de]+$', t) is not None, 'title {!r} of {}, {}', t, v, what)
            case.check(abs(float(t) - v) <= 1e-6 * max(1e-6, abs(v), *[abs(x) for x in values if x is not None]),
                       'title {} of {}, {}', t, v, what)


def planner(case):
    files = {'pomcp.json': planner_file(case, 'a')}
    if case.rng.random() < .5:
        files['other.json'] = planner_file(case, 'b')
    actions, states = explore(case, files, 'pomcp.json', 'pomcp-refresh', True)
    out = play(case, 'pomcp/pomcp.html', {k: json.dumps(v) for k, v in files.items()}, actions)
    for i, (s, (name, hidden, hovered, zoom)) in enumerate(zip(out['steps'], states)):
        display, what = Display(s['display']), '(pomcp, after {})'.format(actions[:i])
        d = files[name]
        tree = Tree(d['graphs'][0], 10 ** 9)
        tree.hidden = hidden
        sound(case, display, what)
        groups = check_tree(case, display, tree, lambda n: short(n['action'], True),
                            lambda p, n: p['observations'][n['observed']], 1, what)
        initial_marks(case, groups, tree, what)
        user_zoom(case, groups.values(), zoom, what)
        for u, e in groups.items():
            n = tree.nodes[u][0]
            tips = [text(x) for x in e['kids'] if x['tag'] == 'title']
            case.equal(len(tips), 1, 'tooltips of a node ' + what)
            m = re.match(r'^Action: (.*)\nVisits: (.*)\nValue: (.*)$', tips[0])
            case.check(m is not None and m.group(1) == n['action'] and m.group(2) == str(n['visits']) and
                       abs(float(m.group(3)) - n['value']) <= 1e-9 * abs(n['value']), 'tooltip {!r} of {} {}', tips[0],
                       {k: n[k] for k in ('action', 'visits', 'value')}, what)
        check_tables(case, display, d, None if hovered is None else tree.nodes[hovered][0], what)
        titles = [text(e) for e in display.all if e['tag'] == 'text' and 'title' in classes(e)]
        case.equal(titles, [name.replace('.json', '')], 'title ' + what)
    case.key(json.dumps(files, sort_keys=True), json.dumps(actions))
    case.note(files=sorted(files), actions=actions)


def shipped(case):
    """Files that come with the pages, and the first page of each."""
    base = os.path.join(core.REPO, 'visualization')
    kind, name = [('htm', 'aamas_2018.json'), ('htm', 'icra.json'), ('htm', 'iros_2018.json'),
                  ('policy', 'legs.json'), ('policy', 'policy.json'), ('policy', 'policy2.json'),
                  ('trajectories', 'trajectories.json'), ('htm', 'joint_task_model.json')][case.index % 8]
    path = os.path.join(base, kind, 'json', name)
    if not os.path.exists(path):
        case.event('shipped files missing')
        return
    with open(path) as f:
        d = json.load(f)
    case.event('shipped: ' + name)
    case.key(name, case.index)
    if kind == 'htm':
        mark(d['nodes'], 's')
        session(case, 'htm/htm.html', {'full_chair.json': d}, 'full_chair.json', 3)
    elif kind == 'policy':
        out = play(case, 'policy/policy.html', {'test.json': json.dumps(d)}, [])
        check_policy(case, Display(out['steps'][0]['display']), 'test.json', d, True, '(policy)')
    else:
        mark(d['graphs'][0], 's')
        files = {'trajectories.json': d}
        actions, states = explore(case, files, 'trajectories.json', 'trajectory-refresh', n=25)
        show_trajectories(case, files, actions, states)
