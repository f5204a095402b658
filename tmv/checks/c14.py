"""C14: action choice is UCB during search and greedy when acting."""
import collections
import math

from .. import pomcpref, stats
from . import c11, c13

PROPERTY = 'C14'
RULE = ('random models and planner settings; every simulated action choice is compared with the UCB rule evaluated on '
        'statistics recomputed from the recorded simulations, every returned action with the greedy rule; node-level '
        'choices on random statistics. Non-trivial: distinct (settings, actions chosen).')


def run(ctx):
    ctx.cases('search', ctx.n(1000, 16000), search)
    ctx.cases('deep', ctx.n(64, 800), deep)
    ctx.cases('supportive', ctx.n(64, 1000), supportive)
    ctx.cases('node', ctx.n(3000, 40000), node)
    ctx.cases('untried', ctx.n(120, 600), untried)
    ctx.require('choices by value', 2000)
    ctx.require('choices where exploration mattered', 100)
    ctx.require('relative choices by value', 500)
    ctx.require('first tries', 1000)
    ctx.require('greedy actions', 300)
    ctx.require('long searches', 40)


def monitor(case, c, relative):
    """on_choice callback: the action simulated from a node follows the UCB rule."""
    def on_choice(shadow, key, a, real):
        n_actions = shadow.n_actions
        case.check(0 <= a < n_actions, 'unknown action {} simulated', a)
        untried = [i for i in range(n_actions) if shadow.visited(key, i) == 0]
        if untried:
            case.check(a in untried, 'action {} was repeated while {} were never tried from this node', a, untried)
            case.event('first tries')
            return
        sts = [shadow.stats[shadow.akey(key, i)] for i in range(n_actions)]
        vals = [s.value for s in sts]
        aug = pomcpref.augmented(vals, [s.n for s in sts], shadow.stat(key).n, c, relative)
        best = max(aug)
        tol = 1e-9 * (1 + max(abs(x) for x in aug) + max(abs(x) for x in vals))
        case.check(aug[a] >= best - tol, 'action {} was simulated; values with exploration bonus {} (values {}, '
                   'visits {}, exploration {}, relative {})', a, aug, vals, [s.n for s in sts], c, relative)
        case.event('choices by value')
        if relative:
            case.event('relative choices by value')
        if vals[a] < max(vals) - tol:
            case.event('choices where exploration mattered')
    return on_choice


def greedy(case, shadow, key, a):
    untried = [i for i in range(shadow.n_actions) if shadow.visited(key, i) == 0]
    if untried:
        return
    vals = [shadow.stats[shadow.akey(key, i)].value for i in range(shadow.n_actions)]
    case.check(vals[a] >= max(vals) - 1e-9 * (1 + max(abs(v) for v in vals)),
               'action {} was returned, the values of actions are {}', a, vals)
    case.event('greedy actions')


def session(case, model, horizon, belief, max_it, n_ops):
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    relative = r.random() < .5
    c = r.choice([None, None, 0., .1, 1., 10., 100., 1000.])
    shared = belief == 'array' and r.random() < .3
    it = r.randint(1, max_it) if max_it < 200 else r.randint(max_it // 4, max_it)
    roll = r.choice([1, 2])
    kw = dict(iterations=it, rollout_it=roll, relative_exploration=relative, exploration=c, belief=belief,
              belief_values=shared, logger=pomcpref.quiet)
    if belief == 'particle':
        kw['belief_params'] = {'n_particles': 10}
    runner = POMCPPolicyRunner(model, horizon=horizon[0], **kw)
    if c is None:
        c = 1. if relative else 100.
    shadow = pomcpref.Shadow(case, runner.tree, model.n_actions, model.discount, horizon[1], roll, shared)
    shadow.on_choice = monitor(case, c, relative)
    actions = list(model.actions)
    taken = []
    with pomcpref.recorded(model) as log:
        path, node = [], runner.tree.root
        for _ in range(n_ops):
            del log[:]
            k = r.choice([None, None, r.randint(0, 40)])
            a = runner.get_action() if k is None else runner.get_action(iterations=k)
            shadow.feed(log, 0, node, path, it if k is None else k)
            case.check(a in actions, 'action {!r} is not one of the model', a)
            ai = actions.index(a)
            greedy(case, shadow, shadow.key(node, path), ai)
            taken.append(ai)
            known = list(node.children[ai].children) if node.children[ai] is not None else []
            if known and r.random() < .5:
                o = r.choice(known)
                runner.step(model.observations[o])
                path = path + [ai, int(o)]
                shadow.stepped(path)
                node = runner.tree.get_node(path)
            elif r.random() < .2:
                runner.reset()
                path, node = [], runner.tree.root
        # settings of exploration only decide what is simulated, never what it is worth
        case.event('nodes compared', shadow.compare())
    case.key(relative, c, it, taken, len(shadow.stats))
    case.note(planner={k: v for k, v in kw.items() if k != 'logger'}, actions=taken)


def search(case):
    parts, model = pomcpref.small_model(case, max_a=5)
    n = case.rng.choice([1, 1, 2, 3, 5])
    case.note(shape=parts['R'].shape, horizon=n)
    session(case, model, (n, lambda: pomcpref.NTransitions(n)), case.rng.choice(['array', 'array', 'particle']), 80,
            case.rng.randint(1, 6))


def deep(case):
    """Many simulations of few actions."""
    parts, model = pomcpref.small_model(case, max_a=3)
    n = case.rng.choice([1, 2, 3])
    case.note(shape=parts['R'].shape, horizon=n)
    session(case, model, (n, lambda: pomcpref.NTransitions(n)), case.rng.choice(['array', 'array', 'particle']), 2500,
            case.rng.randint(1, 2))
    case.event('long searches')


def supportive(case):
    model, proc = c11.random_process(case, max_leaves=3, n_prefs=1, max_objects=2)
    n = case.rng.choice([1, 2, 3])
    session(case, model, (n, lambda: pomcpref.NTransitions(n)), 'particle', 60, 3)


def node(case):
    """Choice at one node with given statistics."""
    from task_models.lib.pomcp import _SearchObservationNode
    r = case.rng
    n = r.randint(1, 8)
    nd = _SearchObservationNode(None, n, alpha=0.)
    scale = r.choice([1., 100., 1e-3])
    vals, ns = [], []
    for a in range(n):
        k = r.choice([0, 1, 1, 2, 3, r.randint(1, 200)]) if r.random() < .4 else r.randint(1, 60)
        v = r.choice([0., 1., -1., r.uniform(-1, 1), r.uniform(-1, 1)]) * scale
        if r.random() < .1 and k == 0:
            pass                                # child never created
        else:
            child = nd.safe_get_child(a)
            for _ in range(k):
                child.update(v)
        vals.append(v)
        ns.append(k)
    total = sum(ns) + r.choice([0, 1])
    for _ in range(total):
        nd.update(0.)
    c = r.choice([0., 0., .5, 1., 5., 100.])
    relative = r.random() < .5
    before = [(x.value, x.n_simulations) if x is not None else None for x in nd.children]
    a = nd.get_best_action(exploration=c, relative_exploration=relative) if c or relative else nd.get_best_action()
    case.equal([(x.value, x.n_simulations) if x is not None else None for x in nd.children], before,
               'statistics after a choice')
    case.check(0 <= a < n, 'unknown action {}', a)
    untried = [i for i in range(n) if ns[i] == 0]
    if untried:
        case.check(a in untried, 'action {} chosen while {} were never tried', a, untried)
        case.event('first tries')
    else:
        aug = pomcpref.augmented(vals, ns, total, c, relative)
        tol = 1e-9 * (scale + max(abs(x) for x in aug))
        case.check(aug[a] >= max(aug) - tol, 'action {} chosen; values {}, visits {}, node visits {}, exploration {}, '
                   'relative {}: {}', a, vals, ns, total, c, relative, aug)
        case.event('choices by value')
        if relative:
            case.event('relative choices by value')
        if vals[a] < max(vals) - tol:
            case.event('choices where exploration mattered')
    case.key(vals, ns, c, relative)
    case.note(values=vals, visits=ns, exploration=c, relative=relative, chosen=int(a))


def untried(case):
    """With k < n planning rounds from a fresh node, k different actions are tried; returned actions stay legal."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    parts, model = pomcpref.small_model(case, max_a=6)
    n = model.n_actions
    k = case.rng.randint(0, n)
    runner = POMCPPolicyRunner(model, iterations=k, horizon=case.rng.choice([1, 3]), logger=pomcpref.quiet)
    a = runner.get_action()
    case.check(a in list(model.actions), 'action {!r} is not one of the model', a)
    tried = [c.n_simulations for c in runner.tree.root.children if c is not None and c.n_simulations]
    case.equal(tried, [1] * k, 'visits of the actions tried in {} rounds with {} actions'.format(k, n))
    case.event('first tries', k)
    case.key(n, k, a)
    case.note(actions=n, rounds=k)
