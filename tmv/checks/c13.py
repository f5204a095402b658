"""C13: the search tree's statistics are exactly the simulations that were run."""
import numpy as np

from .. import gen, pomcpref, stats
from . import c11

PROPERTY = 'C13'
RULE = ('random models (explicit and supportive), horizons, rollouts, exploration, exact or particle beliefs, shared '
        'or not; random sequences of planning, acting, stepping and resetting. Every simulated transition is recorded '
        'and replayed on a shadow tree; all visits and values are compared after every call. Non-trivial: distinct '
        '(parameters, sequence of calls, number of nodes).')
ASSUMPTIONS = ['the documented weight of the latest value in the running averages (alpha) is its default, .001, unless '
               'given explicitly']


def run(ctx):
    ctx.cases('explicit', ctx.n(1200, 20000), explicit)
    ctx.cases('supportive', ctx.n(160, 2400), supportive)
    ctx.cases('average', ctx.n(400, 6000), average)
    ctx.cases('starts', ctx.n(80, 1000), starts)
    ctx.cases('long', ctx.n(64, 800), long)
    ctx.require('transitions replayed', 5000)
    ctx.require('nodes compared', 2000)
    ctx.require('bootstrapped or deep simulations', 100)
    ctx.require('failed belief samplings', 1)


def planner(case, model, horizon, max_it=60, belief=None, shared=None, rollout=None):
    """Returns (runner, shadow, iterations)."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    belief = belief or r.choice(['array', 'array', 'particle'])
    shared = (belief == 'array' and r.random() < .4) if shared is None else shared
    it = r.randint(1, max_it)
    rollout = rollout or r.choice([1, 1, 2, 5])
    relative = r.random() < .4
    kw = dict(iterations=it, rollout_it=rollout, relative_exploration=relative, belief=belief, belief_values=shared,
              exploration=r.choice([None, 0., .5, 1., 10., 100.]), logger=pomcpref.quiet)
    if belief == 'particle':
        kw['belief_params'] = {'n_particles': r.choice([1, 2, 5, 20])}
    code_horizon, ref_horizon = horizon
    runner = POMCPPolicyRunner(model, horizon=code_horizon, **kw)
    shadow = pomcpref.Shadow(case, runner.tree, model.n_actions, model.discount, ref_horizon, rollout, shared)
    case.note(planner={k: v for k, v in kw.items() if k != 'logger'})
    return runner, shadow, it


def session(case, model, runner, shadow, it, n_ops):
    from task_models.lib.belief import MaxSamplesReached
    r = case.rng
    ops = []
    with pomcpref.recorded(model) as log:
        path, node, last = [], runner.tree.root, None
        for _ in range(n_ops):
            op = r.choice(['act', 'act', 'step', 'step', 'reset', 'plan'] if last is not None else ['act', 'plan'])
            ops.append(op)
            del log[:]
            if op in ('act', 'plan'):
                k = it if op == 'act' else r.randint(0, 10)
                a = runner.get_action() if op == 'act' else runner.get_action(iterations=k)
                shadow.feed(log, 0, node, path, k)
                case.event('transitions replayed', len(log))
                case.event('failed belief samplings', sum(e[0] == 'b' and not e[3] for e in log))
                last = list(model.actions).index(a)
            elif op == 'reset':
                runner.reset()
                path, node, last = [], runner.tree.root, None
            else:
                known = list(node.children[last].children) if node.children[last] is not None else []
                o = None
                if known and r.random() < .8:
                    o = r.choice(known)
                else:
                    b = node.belief.array
                    s = case.np.choice(len(b), p=b)
                    o = model.sample_transition(last, s)[1]
                    del log[:]
                try:
                    runner.step(model.observations[o])
                except MaxSamplesReached:
                    ops[-1] = 'failed step'
                else:
                    path = path + [last, int(o)]
                    shadow.stepped(path)
                    node = runner.tree.get_node(path)
                    case.check(not any(e[0] == 't' for e in log), 'stepping simulates')
            if op != 'act' or r.random() < .5:
                case.event('nodes compared', shadow.compare())
        case.event('nodes compared', shadow.compare())
        if not shadow.shared:
            conserved(case, runner.tree)
    if shadow.max_depth >= 2:
        case.event('bootstrapped or deep simulations')
    for key, counts in shadow.first.items():
        n = sum(counts.values())
        if n >= 15:
            b = shadow.beliefs[key]
            stats.frequencies(counts, {i: float(p) for i, p in enumerate(b)}, n,
                              'states from which simulations start')
            case.event('start distributions tested')
    case.key(tuple(ops), sorted(s.n for s in shadow.stats.values()))
    case.note(ops=ops, nodes=len(shadow.stats))


def conserved(case, tree):
    """Independent of the log: visits flow from parents to children."""
    stack = [(tree.root, ())]
    while stack:
        node, path = stack.pop()
        below = sum(c.n_simulations for c in node.children if c is not None)
        extra = node.n_simulations - below
        case.check(0 <= extra <= 1, 'node {} has {} visits, its actions have {} together', path, node.n_simulations,
                   below)
        for a, act in enumerate(node.children):
            if act is None:
                continue
            for o, c in act.children.items():
                stack.append((c, path + (a, o)))


def explicit(case):
    parts, model = pomcpref.small_model(case)
    n = case.rng.choice([0, 1, 1, 2, 3, 5, 8])
    if case.rng.random() < .5:
        horizon = case.rng.choice([n, np.int64(n)])
    else:
        from task_models.lib.pomcp import NTransitionsHorizon
        horizon = NTransitionsHorizon.generator(model, n=n)
    case.note(shape=parts['R'].shape, discount=parts['discount'], horizon=n)
    runner, shadow, it = planner(case, model, (horizon, lambda: pomcpref.NTransitions(n)))
    session(case, model, runner, shadow, it, case.rng.randint(1, 12))


def supportive_horizon(case, model):
    from task_models.supportive import NHTMHorizon
    from task_models.evaluation import FinishedOrNTransitionsHorizon
    from task_models.lib.pomcp import NTransitionsHorizon
    kind = case.rng.choice(['htm', 'finished', 'n'])
    n = case.rng.choice([1, 2, 3, 6])
    final = lambda s: model._int_to_state(int(s)).htm == model.n_htm_states - 1
    step = lambda s: model._int_to_state(int(s)).htm
    if kind == 'htm':
        n = min(n, 2)
        return kind, n, NHTMHorizon.generator(model, n=n), lambda: pomcpref.NSteps(n, step, final)
    if kind == 'finished':
        return (kind, n, FinishedOrNTransitionsHorizon.generator(model, n=n),
                lambda: pomcpref.FinishedOrN(n, final))
    return kind, n, NTransitionsHorizon.generator(model, n=n), lambda: pomcpref.NTransitions(n)


def supportive(case):
    model, proc = c11.random_process(case, max_leaves=3, n_prefs=1, max_objects=2)
    # a task horizon needs a process that moves on
    if model.p_fail > .5:
        type(model).p_fail = .3
    kind, n, gen_h, ref_h = supportive_horizon(case, model)
    case.note(horizon=(kind, n))
    runner, shadow, it = planner(case, model, (gen_h, ref_h), max_it=15, belief='particle')
    session(case, model, runner, shadow, it, case.rng.randint(1, 5))


def average(case):
    """Statistics with explicit weights of the latest value, on trees driven directly."""
    from task_models.lib.pomcp import _SearchTree, NTransitionsHorizon
    parts, model = pomcpref.small_model(case)
    n = case.rng.choice([1, 2, 3, 5])
    alpha = case.rng.choice([0., .001, .1, 1., case.rng.random()])
    roll = case.rng.choice([1, 3])
    tree = _SearchTree(model, NTransitionsHorizon.generator(model, n=n), case.rng.choice([0., 1., 50.]),
                       rollout_it=roll, node_params={'alpha': alpha})
    shadow = pomcpref.Shadow(case, tree, model.n_actions, model.discount, lambda: pomcpref.NTransitions(n), roll,
                             alpha=alpha)
    with pomcpref.recorded(model) as log:
        path, node = [], tree.root
        for _ in range(case.rng.randint(1, 30)):
            del log[:]
            a = case.rng.choice([None, case.rng.randrange(model.n_actions)])
            tree.simulate_from_node(node, action=a)
            shadow.feed(log, 0, node, path, 1, a)
            case.event('transitions replayed', len(log))
            if case.rng.random() < .2:
                seen = [(i, o) for i, c in enumerate(node.children) if c is not None for o in c.children]
                if seen:
                    path = path + list(case.rng.choice(seen))
                    node = tree.get_node(path)
                    shadow.stepped(path)
        case.event('nodes compared', shadow.compare())
        conserved(case, tree)
    case.key(alpha, n, sorted(s.n for s in shadow.stats.values()), [s.value for s in shadow.stats.values()][:3])
    case.note(alpha=alpha, horizon=n, rollouts=roll)


def starts(case):
    """Many simulations from few nodes: starting states follow the belief of the node."""
    parts, model = pomcpref.small_model(case, max_o=2, max_a=2, style=case.rng.choice(['dense', 'uniform', None]))
    n = case.rng.choice([1, 2])
    runner, shadow, it = planner(case, model, (n, lambda: pomcpref.NTransitions(n)), max_it=150,
                                 rollout=case.rng.choice([1, 60]))
    session(case, model, runner, shadow, it, 8)


def long(case):
    """Long searches, or long histories of short ones."""
    parts, model = pomcpref.small_model(case, max_o=3, max_a=3)
    n = case.rng.choice([1, 2, 3])
    often = case.rng.random() < .5
    runner, shadow, it = planner(case, model, (n, lambda: pomcpref.NTransitions(n)), max_it=10 if often else 3000)
    session(case, model, runner, shadow, it, 150 if often else 3)
    case.event('long sessions')
