"""C35: the sample scripts run from a clean checkout and store what they compute."""
import collections
import contextlib
import inspect
import io
import json
import os
import re
import shutil
import subprocess
import tempfile
from types import SimpleNamespace

import numpy as np

from .. import core, pomdpfile, supref, taskref
from . import c06, c08, c09, c11, c19

PROPERTY = 'C35'
RULE = ('the scripts of samples/ are run in copies of a clean checkout, with generated answers of the solver and random '
        'amounts of planning; the model posed to the solver is compared with a reference of the announced task and '
        'settings, the stored policies, trajectories and trees with the answer of the solver, an independent belief '
        'filter and the planner, and the printed graphs with the demonstrations. '
        'Non-trivial: distinct (script, answer of the solver, stored files).')
ASSUMPTIONS = ['the stand-in of pomdp-solve answers with random policies',
               'the planner of the samples is given fewer iterations than the scripts ask for']

FILES = {'icra_scenario2pomdp.py': ['policy/json/icra.json', 'policy/json/from_beliefs.json',
                                    'trajectories/json/trajectories.json'],
         'htm2pomdp.py': ['policy/json/test.json', 'policy/json/from_beliefs.json',
                          'trajectories/json/trajectories.json'],
         'tower_scenario.py': ['policy/json/test.json', 'policy/json/from_beliefs.json',
                               'trajectories/json/trajectories.json'],
         'pomcp.py': ['pomcp/json/pomcp.json'],
         'supportive.py': ['pomcp/json/pomcp.json']}
SOLVED = ['icra_scenario2pomdp.py', 'htm2pomdp.py', 'tower_scenario.py']
INF = 100.


def run(ctx):
    ctx.cases('solved', ctx.n(24, 240), solved, cpu=300, wall=400)
    ctx.cases('explored', ctx.n(12, 120), explored, cpu=300, wall=400)
    ctx.cases('played', ctx.n(8, 48), played, cpu=400, wall=500)
    ctx.cases('printed', ctx.n(48, 480), printed, cpu=120)
    ctx.cases('plotted', 2, plotted, cpu=120)
    ctx.cases('commands', 3, commands, cpu=120)
    for s in SOLVED:
        ctx.require('ran ' + s, 4)
    for s in ('pomcp.py', 'supportive.py', 'snap_circuit_scenarii.py', 'test_hierarchies.py'):
        ctx.require('ran ' + s, 4)
    ctx.require('trajectory nodes', 60)


# -- a clean checkout ----------------------------------------------------------
def tracked():
    """Files of samples and visualization that belong to the repository."""
    out = []
    for top in ('samples', 'visualization'):
        for d, dirs, files in os.walk(os.path.join(core.REPO, top)):
            dirs[:] = [x for x in dirs if x not in ('__pycache__', 'fonts')]
            out.extend(os.path.relpath(os.path.join(d, f), core.REPO) for f in files if not f.endswith('.pyc'))
    try:
        known = subprocess.run(['git', '-C', core.REPO, 'ls-files', 'samples', 'visualization'], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL).stdout.decode().split('\n')
    except OSError:
        known = []
    known = set(known)
    # without git, the results of earlier runs can not be told from the rest
    return [f for f in out if f in known] if 'samples/pomcp.py' in known else out


@contextlib.contextmanager
def checkout(case):
    root = tempfile.mkdtemp(dir=case.ctx.scratch)
    try:
        for f in tracked():
            d = os.path.join(root, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(os.path.join(core.REPO, f), d)
        yield root
    finally:
        shutil.rmtree(root)


def contents(root):
    d = {}
    for where, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for f in files:
            path = os.path.join(where, f)
            with open(path, 'rb') as h:
                d[os.path.relpath(path, root)] = h.read()
    return d


@contextlib.contextmanager
def shorter(horizon):
    """Depth of the trajectories that are stored meanwhile; gives the depths asked for."""
    from task_models.lib.pomdp import GraphPolicyBeliefRunner as Runner
    save = Runner.save_trajectories_from_starts
    signature = inspect.signature(save)

    def saving(*args, **kwargs):
        bound = signature.bind(*args, **kwargs)
        asked.append(bound.arguments.get('horizon'))
        bound.arguments['horizon'] = horizon
        return save(*bound.args, **bound.kwargs)
    asked = []
    Runner.save_trajectories_from_starts = saving
    try:
        yield asked
    finally:
        Runner.save_trajectories_from_starts = save


@contextlib.contextmanager
def explorations(limit):
    """The next explorations meanwhile take no time: they give the same action without simulations."""
    from task_models.lib.pomcp import POMCPPolicyRunner as Runner
    get_action = Runner.get_action
    done = []

    def exploring(self, *args, **kwargs):
        if len(done) < limit:
            done.append(get_action(self, *args, **kwargs))
        return done[-1]
    Runner.get_action = exploring
    try:
        yield
    finally:
        Runner.get_action = get_action


def execute(case, root, script):
    """Runs the script as a command would, from somewhere else or from its folder; returns what it prints."""
    path = os.path.join(root, 'samples', script)
    with io.open(path, encoding='utf-8') as f:
        code = f.read()
    out = io.StringIO()
    keep = os.getcwd()
    away = case.rng.random() < .5
    os.chdir(tempfile.mkdtemp(dir=root) if away else os.path.dirname(path))
    shown = path if away else script
    import logging
    level, handlers = logging.getLogger().level, list(logging.getLogger().handlers)
    ns = {'__name__': '__main__', '__file__': shown}
    try:
        with contextlib.redirect_stdout(out):
            exec(compile(code, shown, 'exec'), ns)
    finally:
        os.chdir(keep)
        logging.getLogger().setLevel(level)
        logging.getLogger().handlers[:] = handlers
    case.event('ran ' + script)
    return out.getvalue(), ns


def stored(case, root, before, script):
    after = contents(root)
    changed = sorted(f for f in after if before.get(f) != after[f])
    case.equal(changed, sorted('visualization/' + f for f in FILES.get(script, [])), 'files written by ' + script)
    case.equal(sorted(set(before) - set(after)), [], 'files removed by ' + script)
    return [c19.strict(case, after['visualization/' + f].decode()) for f in FILES.get(script, [])]


# -- the announced models --------------------------------------------------------
def leaf(name, durations, fail=0., no=0.):
    return ('leaf', dict(name=name, durations=durations, fail=fail, no=no))


CHAIR = ('Sequential', 'Mount chair', [
    ('Sequential', 'Mount central frame', [leaf('Get central frame', (INF, 20., 30.)),
                                           leaf('Start Hold central frame', (3., 10., INF))]),
    ('Sequential', 'Mount legs', [
        ('Sequential', 'Mount left leg', [leaf('Get left leg', (INF, 20., 30.)),
                                          leaf('Snap left leg', (5., INF, INF), fail=.1)]),
        ('Sequential', 'Mount right leg', [leaf('Get right leg', (INF, 20., 30.)),
                                           leaf('Snap right leg', (5., INF, INF), fail=.1)])]),
    leaf('Release central frame', (INF, 1., 1.), no=.1),
    ('Sequential', 'Mount top', [leaf('Get top', (INF, 20., 30.)), leaf('Snap top', (5., INF, INF), fail=.1)])])


def options(t_wait, t_ask, t_tell, intr_cost, **kw):
    d = dict(t_wait=t_wait, t_ask=t_ask, t_tell=t_tell, intr_cost=intr_cost, end_reward=10., deterministic=False,
             structured=False, loop=False, reward_state=False, subtask_reward=None)
    d.update(kw)
    return d


def default_of(name):
    from task_models.task_to_pomdp import CollaborativeAction
    return inspect.signature(CollaborativeAction.__init__).parameters[name].default


STOOL = ('Sequential', 'Mount stool', [
    ('Sequential', 'Mount central frame', [leaf('Get central frame', (INF, 20., 30.)),
                                           leaf('Hold central frame', (.01, 15., 30), fail=.01)]),
    ('Sequential', 'Mount legs', [
        ('Sequential', 'Mount left leg', [leaf('Bring left leg', (INF, 20., 30.)),
                                          leaf('Snap left leg', (5., INF, INF), fail=.01)]),
        ('Sequential', 'Mount right leg', [leaf('Bring right leg', (INF, 20., 30.)),
                                           leaf('Snap right leg', (5., INF, INF), fail=.01)])]),
    leaf('Release central frame', (INF, 1., 1.), no=.1),
    ('Sequential', 'Mount top', [leaf('Bring top', (INF, 20., 30.)),
                                 leaf('Snap top', (5., INF, INF), fail=.1)])])


def announced(tree):
    """Leaves that do not give a probability have that of the class."""
    fail, no = default_of('fail_probability'), default_of('no_probability')

    def fill(t):
        if t[0] == 'leaf':
            return ('leaf', dict(t[1], fail=t[1]['fail'] or fail, no=t[1]['no'] or no))
        return (t[0], t[1], [fill(c) for c in t[2]])
    return fill(tree)


def tower():
    orders = [[2, 0, 4, 3, 1, 5], [2, 4, 0, 3, 5, 1], [0, 1, 2, 3, 4, 5], [0, 1, 4, 5, 2, 3], [2, 3, 0, 1, 4, 5],
              [2, 3, 4, 5, 0, 1]]
    return ('Alternative', 'Alt', [
        ('Sequential', name, [('leaf', dict(name='{}-{}'.format(x, name), obj=str(x))) for x in o])
        for o, name in ((o, '-'.join(str(x) for x in o)) for o in orders)])


def posed(case, script, m):
    """The model posed to the solver is that of the announced task and costs."""
    if script == 'tower_scenario.py':
        opt = dict(t_com=2., t_get=8., t_err=5., objects=[str(i) for i in range(6)], end_reward=50., loop=False)
        c09.compare(case, m, c09.reference(taskref.expand(tower(), c09.rename), opt))
    else:
        if script == 'htm2pomdp.py':
            tree, opt = announced(CHAIR), options(1., 2., 2., 1., end_reward=.1)
        else:
            tree, opt = announced(STOOL), options(1., 2., 2., 1., end_reward=.1)
        c08.compare(case, m, c08.reference(taskref.expand(tree, c08.rename), opt), opt)
    case.event('models posed')


@contextlib.contextmanager
def solving(models):
    """Records the models that are solved meanwhile."""
    from task_models.lib.pomdp import POMDP
    solve = POMDP.solve

    def record(self, *args, **kwargs):
        models.append(self)
        return solve(self, *args, **kwargs)
    POMDP.solve = record
    try:
        yield
    finally:
        POMDP.solve = solve


@contextlib.contextmanager
def answering(plan, path):
    with open(path, 'w') as f:
        json.dump(plan, f)
    if os.path.exists(path + '.record'):
        os.remove(path + '.record')
    keep = os.environ.get('TMV_SOLVER_PLAN')
    os.environ['TMV_SOLVER_PLAN'] = path
    try:
        yield
    finally:
        if keep is None:
            del os.environ['TMV_SOLVER_PLAN']
        else:
            os.environ['TMV_SOLVER_PLAN'] = keep


def described(case, models, plan):
    """Copy of the model that was solved, which is the one the solver was given."""
    case.equal(len(models), 1, 'number of models solved')
    m = models[0]
    m = SimpleNamespace(states=list(m.states), actions=list(m.actions), observations=list(m.observations),
                        discount=m.discount, start=np.array(m.start, dtype=float), T=np.array(m.T), O=np.array(m.O),
                        R=np.array(m.R))
    with open(plan + '.record') as f:
        text = json.load(f)['model']
    d = pomdpfile.parse(text)
    case.equal((d['states'], d['actions'], d['observations']), (m.states, m.actions, m.observations), 'names given')
    for k in ('start', 'T', 'O'):
        case.close(np.array(d[k], dtype=float), getattr(m, k), k + ' given to the solver', 1e-3)
    sign = -1. if d['values'] == 'cost' else 1.
    case.close(np.broadcast_to(sign * np.array(d['R'], dtype=float), m.R.shape), m.R, 'rewards given to the solver',
               1e-3)
    return m


def policy(case, m):
    """A random policy in terms of the solver. Few nodes ask, as trajectories branch there."""
    r = case.rng
    n = r.randint(2, 12)
    quiet = [a for a in range(len(m.actions)) if (m.O[a].max(0) > 0).sum() <= 2] or list(range(len(m.actions)))
    nodes = [r.choice(quiet) if r.random() < .5 else r.randrange(len(m.actions)) for _ in range(n)]
    values = np.round(case.np.randn(n, len(m.states)) * 10, 6)
    transitions = [[None if r.random() < .3 else r.randrange(n) for _ in m.observations] for _ in range(n)]
    return nodes, values, transitions


def solved(case):
    import matplotlib.pyplot as plt
    script = SOLVED[case.index % len(SOLVED)]
    horizon = case.rng.choice([0, 2, 4, 6, 8, 10])
    case.note(script=script, horizon=horizon)
    plan = os.path.join(case.ctx.scratch, 'c35-{}-{}'.format(os.getpid(), case.index))
    plt.close('all')
    with checkout(case) as root:
        before = contents(root)
        models = []
        with answering({'write': {}, 'exit': 4}, plan), solving(models), shorter(horizon):
            case.reseed_global('run')
            case.raises(subprocess.CalledProcessError, lambda: execute(case, root, script),
                        script + ' when the solver fails')
        case.equal({k for k, v in contents(root).items() if before.get(k) != v}, set(), 'files after a failure')
        m = described(case, models, plan)
        posed(case, script, m)
        nodes, values, transitions = policy(case, m)
        alpha, pg = c06.texts(nodes, values, transitions)
        models = []
        with answering({'write': {'alpha': alpha, 'pg': pg}}, plan), solving(models), shorter(horizon) as asked:
            case.reseed_global('run')
            execute(case, root, script)
        case.equal(asked, [10], 'horizons of the trajectories of ' + script)
        posed(case, script, described(case, models, plan))
        with open(plan + '.record') as f:
            record = json.load(f)
        argv = record['argv']
        expected = ('50', 'pairwise') if script == 'tower_scenario.py' else ('500', 'simplex')
        case.equal(tuple(argv[argv.index(o) + 1] for o in ('-horizon', '-fg_type')), expected, 'settings of the solver')
        files = stored(case, root, before, script)
    for f in (plan, plan + '.record'):
        os.remove(f)
    actions = [m.actions[a] for a in nodes]
    parts = dict(actions=actions, values=values)
    saved, visited, trees = files
    same_policy(case, saved, actions, m.observations, values, transitions, m.start, 'policy of ' + script)
    starts = [i for i, x in enumerate(m.start) if x > 0]
    p = dict(T=m.T, O=m.O, start=m.start, actions=m.actions, observations=m.observations)
    case.equal(len(trees['graphs']), len(starts), 'trajectory trees')
    for s, t in zip(starts, trees['graphs']):
        check_tree(case, p, parts, t, np.eye(len(m.start))[s], horizon)
    check_visited(case, p, parts, visited)
    if script == 'htm2pomdp.py':
        shown(case, plt, [values, np.array(visited['values'])])
    plt.close('all')
    case.key(script, actions, transitions, horizon)


def same_policy(case, d, actions, observations, values, transitions, start, what):
    case.equal(d['actions'], actions, what + ': actions')
    case.equal(d['observations'], list(observations), what + ': observations')
    case.close(d['values'], values, what + ': values', 0)
    case.equal(d['transitions'], transitions, what + ': transitions')
    case.check(int(d['initial']) in best(values, start), '{}: initial node {}', what, d['initial'])


def update(p, a, k, b):
    nb = (b @ p['T'][a]) * p['O'][a][:, k]
    z = nb.sum()
    return (nb / z if z > 0 else None), z


def best(values, b):
    v = values @ b
    return np.nonzero(v >= v.max() - 1e-9 * (1 + abs(v.max())))[0].tolist()


def check_tree(case, p, g, tree, b, horizon, path=()):
    what = 'trajectory after {}'.format(list(path))
    case.close(tree['belief'], b, what + ': belief')
    case.check(tree['node'] in best(g['values'], b), '{}: node {} is not the best', what, tree['node'])
    case.equal(tree['action'], g['actions'][tree['node']], what + ': action')
    exp = []
    if horizon > 0:
        a = p['actions'].index(tree['action'])
        for k, o in enumerate(p['observations']):
            nb, z = update(p, a, k, b)
            if nb is not None:
                exp.append((o, nb))
    case.equal(tree['observations'], [o for o, _ in exp], what + ': possible observations')
    case.equal(len(tree['children']), len(exp), what + ': number of children')
    case.event('trajectory nodes')
    for (o, nb), child in zip(exp, tree['children']):
        case.close(child['belief'], nb, what + ': belief after ' + str(o))
        check_tree(case, p, g, child, np.array(child['belief']), horizon - 1, path + (o,))


def check_visited(case, p, g, d):
    beliefs = np.array(d['values'])
    case.close(beliefs[0], p['start'], 'first belief visited')
    case.equal((int(d['initial']), d['observations']), (0, list(p['observations'])), 'graph of visited beliefs')
    for i, b in enumerate(beliefs):
        case.check(d['actions'][i] in [g['actions'][j] for j in best(g['values'], b)],
                   'action of visited belief {} is not that of the policy', i)
        succ = d['transitions'][i]
        if all(x is None for x in succ):
            case.check(len(beliefs) > 100, 'visited belief {} leads nowhere', i)
            continue
        for k, t in enumerate(succ):
            nb, z = update(p, p['actions'].index(d['actions'][i]), k, b)
            case.equal(t is None, nb is None, 'observation {} at visited belief {} leads nowhere'.format(k, i))
            if t is not None:
                dist = np.linalg.norm(beliefs[t] - nb)
                case.check(dist < 1.0001e-2, 'visited belief {} leads to one at distance {}', i, dist)
        case.event('visited beliefs')


def shown(case, plt, arrays):
    """Figures of normalised values, one for each policy."""
    nums = plt.get_fignums()
    case.equal(len(nums), len(arrays), 'number of figures')
    for n, v in zip(nums, arrays):
        meshes = [c for ax in plt.figure(n).axes for c in ax.collections if np.size(c.get_array()) == v.size]
        case.check(meshes, 'no figure of {} values', v.size)
        b = v - v.min()
        top = b.max(-1)[:, None]
        if (top > 0).all():
            case.check(any(np.allclose(np.ma.getdata(c.get_array()).reshape(v.shape), b / top) for c in meshes),
                       'figure {} does not show the values', n)
            case.event('figures')


# -- online planning ---------------------------------------------------------------
@contextlib.contextmanager
def runners(case, particles=None, **forced):
    """Runners created meanwhile, which are given the forced settings."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    created = []
    init = POMCPPolicyRunner.__init__
    signature = inspect.signature(init)

    def __init__(self, *args, **kwargs):
        bound = signature.bind(self, *args, **kwargs)
        bound.arguments.update({k: v for k, v in forced.items() if k in signature.parameters})
        created.append((self, dict(bound.arguments)))
        if 'belief_params' in bound.arguments and particles is not None:
            bound.arguments['belief_params'] = dict(bound.arguments['belief_params'], n_particles=particles)
        init(*bound.args, **bound.kwargs)
    POMCPPolicyRunner.__init__ = __init__
    try:
        yield created
    finally:
        POMCPPolicyRunner.__init__ = init


def missing_internals(e):
    """The scripts show internals of the planner, which may have other names."""
    return isinstance(e, AttributeError) and re.search(r"has no attribute '_", str(e))


def explored(case):
    n = case.rng.choice([40, 50, 70])       # the script expects that every action is tried
    with checkout(case) as root:
        before = contents(root)
        with runners(case, iterations=n) as created, explorations(case.rng.choice([4, 6, 8])):
            case.reseed_global('run')
            try:
                out, ns = execute(case, root, 'pomcp.py')
            except AttributeError as e:
                if missing_internals(e):
                    case.event('ran pomcp.py')
                    return
                raise
        d, = stored(case, root, before, 'pomcp.py')
        case.equal(len(created), 1, 'number of planners')
        runner, _ = created[0]
    tree = runner.tree
    m = tree.model
    opt = options(1., 2., 2., 1., end_reward=1000., reward_state=True, subtask_reward=100.)
    c08.compare(case, m, c08.reference(taskref.expand(announced(STOOL), c08.rename), opt), opt)
    case.equal(len(d['graphs']), 1, 'trees stored')
    case.equal((d['actions'], d['states']), (list(m.actions), list(m.states)), 'names stored')
    case.equal((d['exploration'], d['relative_exploration']), (1, True), 'exploration stored')
    c19.walk_policy(case, d['graphs'][0], tree.root, m, (), set(), None)
    found = re.search(r'Found (\d+) distinct beliefs', out)
    case.check(found, 'the number of beliefs is not shown')
    nodes = reachable(tree.root)
    case.equal(int(found.group(1)), len(nodes), 'number of beliefs announced')
    case.event('tree nodes', len(nodes))
    # and the beliefs are those of the histories
    for h, node in some_histories(case, tree.root, m):
        b = np.array(m.start, dtype=float)
        for a, o in h:
            b, z = update(dict(T=m.T, O=m.O), a, o, b)
            case.check(b is not None, 'the tree has the impossible history {}', h)
        case.close(node.belief.array, b, 'belief of the node after {}'.format(h), 1e-7)
    searched(case, runner, ns)
    case.key('pomcp', n, found.group(1), d['graphs'][0]['visits'], d['graphs'][0]['values'])
    case.note(iterations=n, beliefs=found.group(1))


def searched(case, runner, ns):
    """Exploration of the tree by the functions of the script."""
    search = ns.get('node_search')
    if search is None:
        return
    model = runner.tree.model
    for order in ('breadth', 'depth', 'q'):
        k = case.rng.choice([1, 5, 30])
        with contextlib.redirect_stdout(io.StringIO()) as out:
            histories, nodes = search(runner, order=order, max_nodes=k)
        case.equal(out.getvalue(), 'Found {} nodes\n'.format(len(nodes)), 'nodes announced')
        case.check(1 <= len(nodes) <= k and len(nodes) == len(histories), '{} nodes for {} histories, at most {} asked',
                   len(nodes), len(histories), k)
        case.equal(len({repr(h) for h in histories}), len(histories), 'histories found')
        for h, node in zip(histories, nodes):
            x = runner.tree.root
            for a, o in zip(h[::2], h[1::2]):
                x = x.children[list(model.actions).index(a)].children[list(model.observations).index(o)]
            case.check(x is node, 'the node found after {} is another one', h)
            for i in range(len(h) // 2):
                case.check(order == 'q' or h[:2 * i] in histories, 'no history leads to {}', h)
            if 'format_history' in ns:
                text = ns['format_history'](h)
                exp = ['{}:{}'.format(''.join(w[0] for w in a.split('-')), u'\u2205' if o == 'none' else o[0])
                       for a, o in zip(h[::2], h[1::2])]
                case.equal(text, u'{} [{}]'.format(', '.join(exp), len(h)), 'history shown')
        in_order(case, model, order, histories, nodes, k)
    case.raises(ValueError, lambda: search(runner, order='other'), 'search in an unknown order')
    case.event('tree searches', 3)


def in_order(case, model, order, histories, nodes, limit):
    """Each node explored is the one that the order asks for among those discovered: (rank of the parent, value)."""
    frontier = {(): (-1, nodes[0].value)}
    for i, (h, node) in enumerate(zip(histories, nodes)):
        h = tuple(h)
        case.check(h in frontier, 'the history {} is explored before it is discovered', h)
        rank, value = frontier.pop(h)
        others = list(frontier.values())
        if order == 'q':
            case.check(all(v <= value for _, v in others), 'value {} explored before {}', value,
                       max([v for _, v in others] or [0]))
        elif order == 'breadth':
            case.check(all(r >= rank for r, _ in others), 'breadth first search explores a later node first')
        else:
            case.check(all(r <= rank for r, _ in others), 'depth first search explores an earlier node first')
        for a, c in enumerate(node.children):
            for o, y in (c.children.items() if c is not None else ()):
                frontier[h + (model.actions[a], model.observations[o])] = (i, y.value)
    case.check(len(nodes) == limit or not frontier, 'the search stops at {} nodes of {}', len(nodes), limit)


def reachable(root):
    seen, stack = {}, [root]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        for c in x.children:
            if c is not None:
                stack.extend(c.children.values())
    return list(seen.values())


def some_histories(case, root, m, n=40):
    for _ in range(n):
        h, x = [], root
        while case.rng.random() < .8:
            steps = [(a, o, y) for a, c in enumerate(x.children) if c is not None for o, y in c.children.items()]
            if not steps or len(h) > 12:
                break
            a, o, x = case.rng.choice(steps)
            h.append((a, o))
        yield h, x


def played(case):
    """Supportive robot: exploration, export, trajectories, export."""
    from task_models.lib.belief import MaxSamplesReached
    with checkout(case) as root:
        before = contents(root)
        failed = None
        with runners(case, case.rng.choice([60, 100]), iterations=case.rng.choice([16, 20])) as created:
            case.reseed_global('run')
            episodes = []
            with recorded_episodes(created, episodes):
                try:
                    execute(case, root, 'supportive.py')
                except MaxSamplesReached as e:
                    failed = e      # allowed by particle beliefs
                    case.event('particles not found')
                except AttributeError as e:
                    if missing_internals(e):
                        case.event('ran supportive.py')
                        return
                    raise
        case.equal(len(created), 1, 'number of planners')
        if failed is not None:
            case.event('ran supportive.py')
            return
        d, = stored(case, root, before, 'supportive.py')
    runner, args = created[0]
    case.check(len(episodes) == 5, '{} trajectories played instead of 5', len(episodes))
    m = runner.tree.model
    assembly(case, m)
    case.equal(args['belief_params']['n_particles'], 200, 'number of particles')
    case.equal((d['exploration'], d['relative_exploration']), (50, False), 'exploration stored')
    case.equal(d['actions'], list(m.actions), 'names stored')
    names = [n.name for n in m.htm_nodes] + ['clean', 'final']
    case.equal(d['states'], names, 'names of the steps')
    step_of = [names.index(c11.describe(m, SimpleNamespace(n_prefs=len(m.preferences), objects=m.objects), s)[0])
               for s in range(m.n_states)]
    c19.walk_policy(case, d['graphs'][0], runner.tree.root, m, (), None, None,
                    lambda b: np.bincount(step_of, weights=b, minlength=len(names)))
    case.event('tree nodes', len(reachable(runner.tree.root)))
    case.key('supportive', d['graphs'][0]['visits'], d['graphs'][0]['values'], [len(e) for e in episodes])


def assembly(case, m):
    """The model simulated is the assembly of four legs on a top, brought for the first one."""
    legs = ['Assemble leg-{}{}'.format(i, x) for i in range(4) for x in ('', ' to top')]
    steps = {n: c11.SHIPPED['AssembleLegToTop' if n.endswith('top') else 'AssembleLeg'] for n in legs}
    steps[legs[1]] = c11.SHIPPED['AssembleLegToTop+top']
    params = dict(p_fail=.01, p_consume_all=.5, p_changed_by_human=.01, p_change_preference=.01, r_subtask=0.,
                  r_final=100., r_preference=20., reward_independent_preference=False, cost_get=20.,
                  cost_intrinsic=1., cost_hold=3.)
    proc = supref.Process(steps, {a: {b: 1.} for a, b in zip(legs, legs[1:] + ['clean'])}, list(m.objects),
                          ['joints', 'screwdriver', 'screws'], params)
    case.equal([n.name for n in m.htm_nodes], legs, 'steps of the assembly')
    case.equal(sorted(m.objects), ['joints', 'leg', 'screwdriver', 'screws', 'top'], 'objects of the assembly')
    case.equal(sorted(m.actions), sorted(proc.actions()), 'actions of the robot')
    case.equal((m.discount, m.n_states), (1., 10 * 2 ** 7), 'discount and number of states')
    for _ in range(300):
        c11.observe_step(case, m, proc, case.rng.randrange(m.n_actions), case.rng.randrange(m.n_states - 2 ** 7),
                         case.rng.random() < .5, 'simulated assembly')


@contextlib.contextmanager
def recorded_episodes(created, episodes):
    from task_models.lib.pomcp import POMCPPolicyRunner
    run_trajectory = POMCPPolicyRunner.run_trajectory

    def run(self, *args, **kwargs):
        lines = []
        res = run_trajectory(self, logger=lines.append)
        episodes.append(lines)
        return res
    POMCPPolicyRunner.run_trajectory = run
    try:
        yield
    finally:
        POMCPPolicyRunner.run_trajectory = run_trajectory


# -- printed graphs --------------------------------------------------------------------
def printed(case):
    with checkout(case) as root:
        before = contents(root)
        case.reseed_global('run')
        script = ('snap_circuit_scenarii.py', 'test_hierarchies.py')[case.index % 2]
        out, _ = execute(case, root, script)
        stored(case, root, before, script)
    (snap if case.index % 2 == 0 else hierarchies)(case, out)
    case.key(script, out)
    case.note(script=script, printed=out[:400])


def snap(case, out):
    d = c19.strict(case, out)
    ids = [n['id'] for n in d['nodes']]
    case.equal(sorted(ids), list(range(len(ids))), 'numbers of the nodes')
    succ = collections.defaultdict(list)
    for l in d['links']:
        succ[l['u']].append((l['value']['label'], l['v']))
    roots = set(ids) - {l['v'] for l in d['links']}
    case.equal(len(roots), 1, 'initial states')
    where = []
    for first, u in succ[roots.pop()]:
        a = re.match(r'Place 2 at \((\d+), (\d+)\) oriented north$', first)
        case.check(a, 'first action is {!r}', first)
        r, c = map(int, a.groups())
        case.equal(succ[u] and succ[u][0][0], 'Place 2 at ({}, {}) oriented east'.format(r + 2, c), 'second action')
        case.equal((len(succ[u]), succ[succ[u][0][1]]), (1, []), 'continuation')
        case.check(0 <= r < 5 and 0 <= c < 9, 'the L at {} is not on the board', (r, c))
        where.append((r, c))
    case.check(1 <= len(where) <= 3 and len(set(where)) == len(where), 'demonstrations at {}', where)
    case.equal((len(ids), len(d['links'])), (1 + 2 * len(where), 2 * len(where)), 'size of the graph')


def hierarchies(case, out):
    """The printed graphs lead from the demonstrations to the whole hierarchy."""
    blocks = [[tuple(l.strip().split(' -> ')) for l in b.split('\n') if ' -> ' in l]
              for b in re.split(r'[A-Z][a-z ]*conjugate graph|Conjugate graph:', out)]
    blocks = [b for b in blocks if b]
    case.check(len(blocks) >= 2, 'graphs printed: {}', len(blocks))
    once = [('initial', 'b1'), ('initial', 'c1'), ('b3', 'terminal'), ('b3', 'c1'), ('c2', 'terminal'), ('c2', 'b1')]
    twice = [('b1', 'b2'), ('b2', 'b3'), ('c1', 'c2')]
    case.equal(sorted(blocks[0]), sorted(once + 2 * twice), 'graph of the demonstrations')
    whole = {'((b1{0}b2{0}b3){1}(c1{0}c2))', '((c1{0}c2){1}(b1{0}b2{0}b3))'}
    whole = {w.format(u'\u2192', '||') for w in whole}
    got = blocks[-1]
    case.equal(len(got), 2, 'transitions at the end')
    case.check(any(sorted(got) == sorted([('initial', w), (w, 'terminal')]) for w in whole), 'graph at the end: {}', got)
    case.event('hierarchies printed')


def plotted(case):
    import matplotlib.pyplot as plt
    plt.close('all')
    with checkout(case) as root:
        before = contents(root)
        execute(case, root, 'plot_exploration_term.py')
        stored(case, root, before, 'plot_exploration_term.py')
    ax = plt.gca()
    lines = ax.get_lines()
    texts = [t.get_text() for t in ax.get_legend().get_texts()]
    case.equal(len(lines), len(texts), 'number of curves')
    for l, t in zip(lines, texts):
        x, y = l.get_xdata(), l.get_ydata()
        share = float(re.search(r'\d+', t).group()) / 100
        case.close(y, np.sqrt(np.log(x) / (share * x)), 'exploration term of an action tried {} of the time'.format(t))
    plt.close('all')
    case.key('plot', case.index)


def commands(case):
    """As real commands, in processes of their own."""
    import sys
    script = ('test_hierarchies.py', 'snap_circuit_scenarii.py', 'plot_exploration_term.py')[case.index % 3]
    with checkout(case) as root:
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8',
                   MPLBACKEND='Agg', MPLCONFIGDIR=case.ctx.scratch)
        p = subprocess.run([sys.executable, os.path.join('samples', script)], cwd=root, env=env, timeout=100,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out = p.stdout.decode('utf-8')
    case.equal((p.returncode, p.stderr.decode()[-300:] if p.returncode else ''), (0, ''), script)
    if case.index < 2:
        (hierarchies, snap)[case.index](case, out)
    case.key('command', script)
