"""C28: hierarchical task files load to the task they describe."""
import io
import itertools
import json
import os

from .. import core, gen

PROPERTY = 'C28'
RULE = ('files of the current format shipped with the repository, generated files (any identifiers, nesting, attributes, '
        'layout and unicode names) and exports of generated hierarchies are loaded and every node is compared with its '
        'description; lookups for existing, repeated and missing identifiers and names are compared with a depth-first '
        'enumeration. Non-trivial: distinct files.')
ASSUMPTIONS = ['treeData.json and flare.json are in older formats (no "nodes" or no "combination" entries)']

SHIPPED = ['aamas_2018.json', 'icra.json', 'iros_2018.json', 'joint_task_model.json', 'treeData2.json']
WORDS = ['Mount', 'leg', 'Gather', 'parts', 'Über', 'ß', 'top', 'LEG 1', 'leg 2', '组装', 'a/b', 'tab\there', 'q"q', '', ' ']


def run(ctx):
    ctx.cases('shipped', len(SHIPPED), shipped)
    ctx.cases('files', ctx.n(12000, 48000), files)
    ctx.cases('exports', ctx.n(6400, 25600), exports)
    for e, m in (('node', 8000), ('leaf', 3000), ('agent', 1000), ('no agent', 1000), ('highlighted leaf', 300),
                 ('highlighted combination', 300), ('shipped file', 5), ('parent found', 2000), ('parent missing', 1000),
                 ('human action found', 1000), ('human action missing', 1000), ('name found', 2000),
                 ('name missing', 1000), ('export', 500), ('empty task', 5), ('repeated identifiers', 200),
                 ('single leaf', 50)):
        ctx.require(e, m)


def load(case, data, how):
    from task_models.json_to_htm import json_to_htm
    path = os.path.join(case.ctx.scratch, 'task-{}.json'.format(os.getpid()))
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(json.dumps(data, **how))
    before = io.open(path, encoding='utf-8').read()
    task = json_to_htm(path)
    case.equal(io.open(path, encoding='utf-8').read(), before, 'file after loading')
    return task


def layout(case):
    r = case.rng
    return dict(ensure_ascii=r.random() < .5, indent=r.choice([None, None, 2, 0]), sort_keys=r.random() < .3)


def has_children(d):
    return 'children' in d


def compare(case, node, d):
    """The loaded node is the described one."""
    where = 'node {!r} (id {})'.format(d['name'], d['id'])
    case.equal(node.name, d['name'], 'name of ' + where)
    case.equal(node.idx, d['id'], 'identifier of ' + where)
    case.equal(node.parent, d['parent'], 'parent of ' + where)
    case.equal(node.kind, d['combination'], 'kind of ' + where)
    case.equal(bool(node.highlighted), 'highlighted' in d['attributes'], 'highlighting of ' + where)
    case.event('node')
    if has_children(d):
        case.equal(len(node.children), len(d['children']), 'number of children of ' + where)
        if 'highlighted' in d['attributes']:
            case.event('highlighted combination')
        for c, e in zip(node.children, d['children']):
            compare(case, c, e)
    else:
        from task_models.task import LeafCombination
        case.check(isinstance(node, LeafCombination), '{} is a {}', where, type(node).__name__)
        case.equal(node.action.name, d['name'], 'action of ' + where)
        agent = [a for a in d['attributes'] if a != 'highlighted']
        case.check(len(agent) < 2, 'more than one agent in the description')
        case.equal(node.action.agent, agent[0] if agent else 'None', 'agent of ' + where)
        case.event('agent' if agent else 'no agent')
        case.event('leaf')
        if 'highlighted' in d['attributes']:
            case.event('highlighted leaf')


def snapshot(node):
    kids = None if node.kind is None else [snapshot(c) for c in node.children]
    return (id(node), type(node), node.name, node.idx, node.parent, bool(node.highlighted), node.kind,
            (node.action.name, node.action.agent, id(node.action)) if node.kind is None else None, kids)


def below(node):
    """[(descendant, its parent)] in depth-first order."""
    out = []
    if node.kind is not None:
        for c in node.children:
            out.append((c, node))
            out += below(c)
    return out


def queries(case, task, n=12):
    r = case.rng
    before = snapshot(task.root)
    nodes = [task.root] + [c for c, _ in below(task.root)]
    ids = [c.idx for c in nodes]
    for _ in range(n):
        at = task.root if r.random() < .6 else r.choice(nodes)
        desc = below(at)
        q = r.choice(ids) if r.random() < .75 else r.choice([max(ids) + 1, -1, r.randrange(60)])
        q = int(str(q))         # another number of the same value
        what = 'from {!r} (id {}) of {}: '.format(at.name, at.idx, [(c.name, c.idx) for c in nodes][:30])
        exp = next((p for c, p in desc if c.idx == q), None)
        case.check(task.find_parent_node(at, q) is exp, what + 'parent of {} should be {}', q, exp and (exp.name, exp.idx))
        case.event('parent found' if exp else 'parent missing')
        q = r.choice(ids + [-1, max(ids)]) + r.choice([0, 0, 0, -1])
        exp = next((c for c, _ in desc if c.idx > q and c.kind is None and c.action.agent == 'human'), None)
        got = task.find_next_human_action(at, q)
        case.check(got is exp, what + 'human action after {} is {} instead of {}', q, got and (got.name, got.idx),
                   exp and (exp.name, exp.idx))
        case.event('human action found' if exp else 'human action missing')
        q = r.choice(nodes).name
        if r.random() < .8:
            q = q.lower()
        if r.random() < .4:
            i = r.randint(0, len(q))
            q = q[i:r.randint(i, len(q))]
        if r.random() < .15:
            q = r.choice(['zzz', 'leg', 'mount', 'LEG', 'leg 1 '])
        exp = next((c for c, _ in desc if q in c.name.lower()), None)
        got = task.find_node_by_name(at, q)
        case.check(got is exp, what + 'node named {!r} is {} instead of {}', q, got and (got.name, got.idx),
                   exp and (exp.name, exp.idx))
        case.event('name found' if exp else 'name missing')
    case.equal(snapshot(task.root), before, 'the hierarchy after lookups')


def shipped(case):
    from task_models.json_to_htm import json_to_htm
    path = os.path.join(core.REPO, 'visualization', 'htm', 'json', SHIPPED[case.index])
    if not os.path.exists(path):
        case.event('shipped file')
        return
    case.note(file=SHIPPED[case.index])
    with io.open(path, encoding='utf-8') as f:
        d = json.load(f)
    task = json_to_htm(path)
    compare(case, task.root, d['nodes'])
    queries(case, task, 100)
    case.event('shipped file')
    case.key(SHIPPED[case.index])


def shape(case):
    """Nested lists: [] is a leaf."""
    r = case.rng
    if r.random() < .08:
        return None
    if r.random() < .05:
        t = None
        for _ in range(r.randint(20, 60)):
            t = [t] + [None] * r.choice([0, 0, 1])
            r.shuffle(t)
        return t
    left = [r.choice([2, 4, 8, 15, 30])]

    def build(depth):
        left[0] -= 1
        if depth == 0 or left[0] <= 0 or r.random() < .3 and depth < 5:
            return None
        return [build(depth - 1) for _ in range(r.randint(1, 4))]
    return build(5)


def files(case):
    r = case.rng
    style = r.choice(['preorder', 'preorder', 'random', 'repeated', 'shifted', 'reversed'])
    counter = itertools.count()
    p_high, p_agent = r.choice([0., .2, .6]), r.choice([0., .5, 1.])

    def describe(t, parent):
        k = next(counter)
        idx = {'preorder': k, 'shifted': k + 100, 'reversed': 1000 - k, 'random': r.randrange(10 ** 6),
               'repeated': r.randrange(6)}[style]
        attributes = ['highlighted'] if r.random() < p_high else []
        d = {'name': ' '.join(r.choice(WORDS) for _ in range(r.randint(1, 3))), 'id': idx, 'parent': parent,
             'combination': None, 'attributes': attributes}
        if t is None:
            if r.random() < p_agent:
                attributes.insert(r.randint(0, len(attributes)), r.choice(['human', 'robot', 'human', 'left-arm', 'None']))
        else:
            d['combination'] = r.choice(['Sequential', 'Parallel', 'Alternative'])
            d['children'] = [describe(c, idx) for c in t]
            if r.random() < .03 and d['combination'] != 'Alternative':
                d['children'] = []
        items = list(d.items())
        r.shuffle(items)
        return dict(items)
    t = shape(case)
    data = {'nodes': describe(t, None)}
    if r.random() < .5:
        data['name'] = 'Some task'
    task = load(case, data, layout(case))
    case.note(style=style, data=json.dumps(data)[:2000])
    compare(case, task.root, data['nodes'])
    again = task.as_dictionary()['nodes']
    stack = [(again, data['nodes'])]
    while stack:
        e, f = stack.pop()
        case.equal((e['name'], e['combination'], sorted(e['attributes'])),
                   (f['name'], f['combination'], sorted(a for a in f['attributes'] if a != 'None')),
                   'export of the node loaded from {!r}'.format(f))
        case.equal(len(e.get('children', [])), len(f.get('children', [])), 'exported children')
        stack.extend(zip(e.get('children', []), f.get('children', [])))
    if t is None:
        case.event('single leaf')
    if style == 'repeated':
        case.event('repeated identifiers')
    queries(case, task)
    case.key(json.dumps(data, sort_keys=True))


def exports(case):
    """Exported hierarchies come back."""
    from task_models.task import (HierarchicalTask, AbstractAction)
    from task_models.action import Action
    r = case.rng
    if r.random() < .03:
        d = HierarchicalTask().as_dictionary(name='none')
        task = load(case, d, layout(case))
        case.check(task.is_empty() and task.root is None, 'an empty task comes back with a root')
        case.event('empty task')
        return
    names = itertools.count()
    tree = gen.random_tree(case, r.choice([0, 1, 3, 4]), 4, lambda i: i, max_leaves=60)
    def rename(t):
        return t if t[0] == 'leaf' else (t[0], r.choice([t[1], r.choice(WORDS)]), [rename(c) for c in t[2]])
    tree = rename(tree)
    cls = r.choice([Action, AbstractAction])
    root = gen.tree_to_htm(tree, lambda i: cls('{} {}'.format(r.choice(WORDS), next(names)),
                                               *r.choice([(), ('human',), ('robot',)])))
    everything = [root] + [c for c, _ in below(root)]
    for n in everything:
        n.highlighted = r.random() < .3
    original = HierarchicalTask(root)
    before = snapshot(root)
    given = r.choice([None, 'exported', r.choice(WORDS), ''])
    d = original.as_dictionary(name=given) if given is not None or r.random() < .2 else original.as_dictionary()
    case.equal(snapshot(root), before, 'the hierarchy after an export')
    case.note(export=json.dumps(d)[:2000])
    case.equal(original.as_dictionary(name=d['name']), d, 'a second export')
    case.equal(d['name'], 'Hierarchical task tree' if given is None else given, 'name of the export')
    # the export is the hierarchy, numbered in depth-first order
    ids = itertools.count()

    def expected(node, parent):
        idx = next(ids)
        e = {'name': node.name, 'id': idx, 'parent': parent, 'combination': node.kind,
             'attributes': ['highlighted'] if node.highlighted else []}
        if node.kind is not None:
            e['children'] = [expected(c, idx) for c in node.children]
        elif node.action.agent != 'None':
            e['attributes'].append(node.action.agent)
            case.event('agent exported')
        return e
    def normal(e):
        return dict(e, attributes=sorted(e['attributes']), **(
            {'children': [normal(c) for c in e['children']]} if 'children' in e else {}))
    case.equal(normal(d['nodes']), normal(expected(root, None)), 'exported nodes')
    task = load(case, d, layout(case))
    compare(case, task.root, d['nodes'])
    case.equal(task.as_dictionary(name=d['name']), d, 'export of the loaded task')
    queries(case, task, 4)
    case.event('export')
    case.key(json.dumps(d, sort_keys=True))
