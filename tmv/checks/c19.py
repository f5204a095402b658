"""C19: exported planner trees are faithful, valid JSON."""
import json
import math
import os

import numpy as np

from .. import gen, pomcpref
from . import c11, c18

PROPERTY = 'C19'
RULE = ('trees grown by random planning sessions (explicit and supportive models, exact, shared and particle beliefs) '
        'are exported in every form; the JSON is parsed strictly and walked along with the nodes of the tree. Planning '
        'after an export is compared with planning without one under equal seeds. Non-trivial: distinct (model, '
        'visits).')
ASSUMPTIONS = ['the action of a node with untried actions is any of the untried ones',
               '"observed" is the position in the list of observations of the parent, as the viewer uses it']


def run(ctx):
    ctx.cases('explicit', ctx.n(1200, 12000), explicit)
    ctx.cases('supportive', ctx.n(360, 2400), supportive)
    ctx.cases('unchanged', ctx.n(360, 3000), unchanged)
    for k in ('values', 'policy', 'quotient'):
        ctx.require('nodes exported: ' + k, 300)
    ctx.require('shared trees', 30)
    ctx.require('files', 100)
    ctx.require('nodes traversed', 300)
    ctx.require('steps to simulated observations', 100)
    ctx.require('large trees', 8)
    ctx.require('exports followed by planning', 50)


def strict(case, text):
    def bad(x):
        case.fail('the export contains {}, which is not JSON'.format(x))
    return json.loads(text, parse_constant=bad)


def roundtrip(case, d):
    return strict(case, json.dumps(d))


def near(case, got, exp, what):
    case.check(got is not None and abs(got - exp) <= 1e-12 * (1 + abs(exp)), '{}: exported {}, is {}', what, got, exp)


def same_belief(case, got, belief, what):
    case.check(np.array_equal(np.asarray(got, dtype=float), np.asarray(belief.array, dtype=float)),
               'belief of {}: exported {}, is {}', what, got, belief.array)


def walk_values(case, d, node, model, path, visited):
    what = 'node {}'.format(path)
    near(case, d['value'], node.value, 'value of ' + what)
    case.equal(d['visits'], node.n_simulations, 'visits of ' + what)
    same_belief(case, d['belief'], node.belief, what)
    case.event('nodes exported: values')
    kids = [(a, c) for a, c in enumerate(node.children) if c is not None]
    if visited is not None:
        k = id(node)
        if k in visited:
            case.equal((d['actions'], d['children']), ([], []), 'children of a node exported before')
            return
        visited.add(k)
    case.equal(d['actions'], [model.actions[a] for a, _ in kids], 'actions of ' + what)
    case.equal(len(d['children']), len(kids), 'children of ' + what)
    for (a, act), da in zip(kids, d['children']):
        w = 'action {} of {}'.format(a, what)
        near(case, da['value'], act.value, 'value of ' + w)
        case.equal(da['visits'], act.n_simulations, 'visits of ' + w)
        case.equal(sorted(map(repr, da['observations'])), sorted(repr(model.observations[o]) for o in act.children),
                   'observations after ' + w)
        case.equal(len(da['children']), len(da['observations']), 'children of ' + w)
        for name, dc in zip(da['observations'], da['children']):
            o = list(model.observations).index(name)
            walk_values(case, dc, act.children[o], model, path + (a, o), visited)


def choice(case, node, name, model, what):
    case.check(name in list(model.actions), 'unknown action {!r} of {}', name, what)
    a = list(model.actions).index(name)
    untried = [i for i, c in enumerate(node.children) if c is None or c.n_simulations == 0]
    if untried:
        case.check(a in untried, 'action {} of {} although {} were never tried', a, what, untried)
    else:
        vals = [c.value for c in node.children]
        case.check(vals[a] >= max(vals), 'action {} of {}, values are {}', a, what, vals)
    return a


def walk_policy(case, d, node, model, path, visited, observed, quotient=None):
    what = 'node {}'.format(path)
    near(case, d['value'], node.value, 'value of ' + what)
    case.equal(d['visits'], node.n_simulations, 'visits of ' + what)
    if quotient is None:
        same_belief(case, d['belief'], node.belief, what)
    else:
        case.close(d['belief'], quotient(node.belief.array), 'belief over steps of ' + what)
    case.event('nodes exported: ' + ('policy' if quotient is None else 'quotient'))
    case.equal(d['observed'], observed, 'index of the observation leading to ' + what)
    a = choice(case, node, d['action'], model, what)
    kids = node.children
    case.equal(d['child_visits'], [c.n_simulations if c is not None else 0 for c in kids], 'visits below ' + what)
    for i, c in enumerate(kids):
        v, e = d['values'][i], d['exploration_terms'][i]
        if c is None or c.n_simulations == 0:
            case.equal((v, e), (None, None), 'value of an untried action of ' + what)
        else:
            near(case, v, c.value, 'value of action {} of {}'.format(i, what))
            near(case, e, math.sqrt(math.log(node.n_simulations) / c.n_simulations),
                 'exploration term of action {} of {}'.format(i, what))
    case.equal((len(d['values']), len(d['exploration_terms'])), (len(kids), len(kids)), 'number of values')
    if visited is not None:
        if id(node) in visited:
            case.check(not d.get('children'), 'children of a node exported before')
            return
        visited.add(id(node))
    grand = kids[a].children if kids[a] is not None else {}
    case.equal(sorted(map(repr, d['observations'])), sorted(repr(model.observations[o]) for o in grand),
               'observations of ' + what)
    case.equal(len(d['children']), len(d['observations']), 'children of ' + what)
    for i, (name, dc) in enumerate(zip(d['observations'], d['children'])):
        o = list(model.observations).index(name)
        walk_policy(case, dc, grand[o], model, path + (a, o), visited, i, quotient)


def grow(case, model, kw, ops, horizon):
    from task_models.lib.pomcp import POMCPPolicyRunner
    from task_models.lib.belief import MaxSamplesReached
    runner = POMCPPolicyRunner(model, horizon=horizon, logger=pomcpref.quiet, **kw)
    path = []
    for op, k in ops:
        a = list(model.actions).index(runner.get_action(iterations=k))
        if op == 'reset':
            runner.reset()
            path = []
        elif op == 'step':
            node = runner.tree.get_node(path)
            known = list(node.children[a].children) if node.children[a] is not None else []
            o = None
            if k % 4 == 3:  # an observation that may never have been simulated, even after an action never tried
                o = int(model.sample_transition(a, runner.belief.sample())[1])
                case.event('steps to simulated observations')
            elif known:
                o = known[k % len(known)]
            if o is not None:
                try:
                    runner.step(model.observations[o])
                    path = path + [a, o]
                except MaxSamplesReached:
                    pass
    return runner


def random_ops(case, max_it, many=False):
    r = case.rng
    ops = [(r.choice(['plan', 'step', 'step', 'reset']), r.randint(0, max_it)) for _ in range(r.randint(1, 5))]
    if r.random() < .15:  # hardly any planning before a step
        ops = [(op, r.choice([0, 3, 3, 7])) for op, _ in ops] + ops
    if many and r.random() < .03:
        ops.append(('plan', r.choice([300, 1050, 1500])))
        case.event('large trees')
    return ops


def settings(case, belief, shared):
    r = case.rng
    kw = dict(iterations=5, rollout_it=1, relative_exploration=r.random() < .5, exploration=r.choice([None, 0., 2., 50., .3, 12.5, 7]),
              belief=belief, belief_values=shared)
    if belief == 'particle':
        kw['belief_params'] = {'n_particles': 5}
    return kw


def file_of(case, runner, **kw):
    from task_models.lib.pomcp import export_pomcp
    path = os.path.join(case.ctx.scratch, 'export-{}-{}.json'.format(os.getpid(), case.index))
    gen.previous(case, path)
    export_pomcp(runner, path, **kw)
    with open(path) as f:
        d = strict(case, f.read())
    os.remove(path)
    case.event('files')
    return d


def explicit(case):
    r = case.rng
    belief = r.choice(['array', 'array', 'particle'])
    shared = belief == 'array' and r.random() < .5
    style = r.choice(['det', 'grid', 'uniform']) if shared and r.random() < .7 else None
    parts, model = pomcpref.small_model(case, style=style)
    ops = random_ops(case, 25, many=True)
    kw = settings(case, belief, shared)
    runner = grow(case, model, kw, ops, r.choice([0, 1, 3, 6]))
    tree = runner.tree
    before = pomcpref.snapshot(tree)
    v = lambda: set() if shared else None
    walk_values(case, roundtrip(case, tree.to_dict()), tree.root, model, (), v())
    walk_policy(case, roundtrip(case, tree.to_dict(as_policy=True)), tree.root, model, (), v(), None)
    walk_values(case, roundtrip(case, tree.to_dict()), tree.root, model, (), v())
    d = roundtrip(case, runner.trajectory_trees_from_starts(qvalue=True))
    case.equal((list(d), len(d['graphs'])), (['graphs'], 1), 'trajectory trees')
    walk_values(case, d['graphs'][0], tree.root, model, (), v())
    d = roundtrip(case, runner.trajectory_trees_from_starts())
    walk_policy(case, d['graphs'][0], tree.root, model, (), v(), None)
    d = file_of(case, runner)
    case.equal(len(d['graphs']), 1, 'number of graphs')
    walk_policy(case, d['graphs'][0], tree.root, model, (), v(), None)
    case.equal((d['states'], d['actions']), (list(model.states), list(model.actions)), 'names in the file')
    c = kw['exploration']
    if c is None:
        c = 1. if kw['relative_exploration'] else 100
    case.equal((d['exploration'], d['relative_exploration']), (c, kw['relative_exploration']), 'settings in the file')
    after = pomcpref.snapshot(tree)
    if not shared:
        case.equal(after, before, 'visits and values after exporting')
        # the generic traversal visits every node once
        n = tree.map(lambda x: 1, lambda x, kids: x + sum(kids))
        m, stack = 0, [tree.root]
        while stack:
            x = stack.pop()
            m += 1
            stack.extend(x.children.values() if isinstance(x.children, dict) else
                         [c for c in x.children if c is not None])
        case.equal(n, m, 'number of nodes traversed')
        same_tree(case, tree.map(lambda x: {'of': x}), tree.root, model)
    else:
        case.event('shared trees')
        case.equal(sorted(after.values()), sorted(before.values()), 'visits and values after exporting')
    case.key(parts['T'].tobytes(), ops, sorted(before.values())[-3:])
    case.note(shape=parts['R'].shape, planner=kw, ops=ops, nodes=len(before))


def same_tree(case, d, root, model):
    """Children by name and the generic traversal show the nodes of the tree."""
    stack = [(d, root, True)]
    while stack:
        d, node, observation = stack.pop()
        case.check(d['of'] is node, 'the traversal gives another node')
        kids = dict(enumerate(node.children)) if observation else node.children
        kids = {k: c for k, c in kids.items() if c is not None}
        if observation:
            case.equal({k: id(c) for k, c in node.children_dict(model).items()},
                       {model.actions[k]: id(c) for k, c in kids.items()}, 'children by action name')
        case.equal([id(x['of']) for x in d['children']], [id(c) for c in kids.values()], 'children traversed')
        stack.extend((x, c, not observation) for x, c in zip(d['children'], kids.values()))
        case.event('nodes traversed')


def supportive(case):
    r = case.rng
    model, proc = c11.random_process(case, max_leaves=4, max_objects=2)
    ops = random_ops(case, 60)
    kw = settings(case, 'particle', False)
    runner = grow(case, model, kw, ops, r.choice([1, 3]))
    tree = runner.tree
    before = pomcpref.snapshot(tree)
    steps = [c11.describe(model, proc, s)[0] for s in range(model.n_states)]
    names = [n.name for n in model.htm_nodes] + ['clean', 'final']
    index = [names.index(s) for s in steps]

    def quotient(b):
        q = [0.] * len(names)
        for i, p in zip(index, b):
            q[i] += p
        return q

    d = file_of(case, runner, belief_as_quotient=True)
    case.equal(len(d['graphs']), 1, 'number of graphs')
    walk_policy(case, d['graphs'][0], tree.root, model, (), None, None, quotient)
    case.equal(list(d['states']), names, 'names of the steps')
    case.equal(d['actions'], list(model.actions), 'names of actions')
    walk_values(case, roundtrip(case, tree.to_dict()), tree.root, model, (), None)
    walk_policy(case, roundtrip(case, tree.to_dict(as_policy=True)), tree.root, model, (), None, None)
    case.equal(pomcpref.snapshot(tree), before, 'visits and values after exporting')
    case.key(proc.tree, ops, sorted(before.values())[-3:])
    case.note(task=proc.tree, planner=kw, ops=ops, nodes=len(before))


def unchanged(case):
    """Planning after exports, under equal seeds, is what it would have been without them."""
    r = case.rng
    shared = r.random() < .3
    parts, model = pomcpref.small_model(case)
    kw = settings(case, 'array', shared)
    ops, more = random_ops(case, 15), random_ops(case, 15)
    horizon = r.choice([1, 3])
    snaps, acts = [], []
    for export in (False, True):
        case.reseed_global('grow')
        runner = grow(case, model, kw, ops, horizon)
        history = list(runner.history)
        if export:
            for _ in range(2):
                runner.trajectory_trees_from_starts(qvalue=r.random() < .5)
                file_of(case, runner)
            case.equal(list(runner.history), history, 'history after exporting')
            case.event('exports followed by planning')
        case.reseed_global('plan')
        seq = []
        for op, k in more:
            seq.append(runner.get_action(iterations=k))
            seq.append([int(h) for h in runner.history])
        acts.append(seq)
        snaps.append(sorted(pomcpref.snapshot(runner.tree).values()))
    case.equal(acts[1], acts[0], 'actions after exporting')
    case.equal(snaps[1], snaps[0], 'visits and values after exporting and planning')
    case.key(parts['T'].tobytes(), ops, more)
    case.note(ops=ops, more=more, shared=shared)
