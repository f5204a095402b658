"""C07: policy-graph execution follows the graph and the tracked belief."""
import json
import os

import numpy as np

from .. import gen, policies

PROPERTY = 'C07'
RULE = ('random policy graphs and models; a shadow node / an independent Bayes filter follows each runner over random '
        'histories with impossible and repeated observations, resets and re-reads; exported trees and visited-belief '
        'graphs are recomputed node by node. Non-trivial: distinct (graph, history) or (model, graph, tree).')


def case_graph(case):
    from task_models.lib.pomdp import GraphPolicyRunner, Impossible
    g = policies.graph_parts(case)
    gp = policies.make(g)
    run = GraphPolicyRunner(gp)
    cur = g['init']
    hist = []
    for step in range(case.rng.randint(5, 40)):
        for _ in range(case.rng.randint(1, 2)):
            case.equal(run.get_action(), g['actions'][cur], 'action after {}'.format(hist[-6:]))
        case.equal(int(run.current), cur, 'current node after {}'.format(hist[-6:]))
        what = case.rng.random()
        if what < .05:
            run.reset()
            cur = g['init']
            hist.append('reset')
            case.event('reset')
        elif what < .1:
            b = case.np.dirichlet(np.ones(g['values'].shape[1]))
            run.reset(belief=b)
            case.check(int(run.current) in policies.best_nodes(g['values'], b),
                       'reset to a belief leads to node {}, which is not the best', run.current)
            cur = int(run.current)
            hist.append('reset-to-belief')
            case.event('reset')
        else:
            k = case.rng.randrange(len(g['observations']))
            o = g['observations'][k]
            nxt = g['transitions'][cur][k]
            if nxt is None:
                case.raises(Impossible, lambda: run.step(o), 'observation without an edge')
                case.event('no-edge')
            else:
                run.step(o)
                cur = nxt
                case.event('edge')
            hist.append(o)
    policies.same(case, gp, g, 'policy after running')
    case.key(g['actions'], g['transitions'], hist)
    case.note(init=g['init'], transitions=g['transitions'], history=hist)


def setup(case, max_s=4, max_o=4, rare=False):
    p = gen.pomdp_parts(case, s=case.np.randint(1, max_s + 1), o=case.np.randint(1, max_o + 1), named=True,
                        style=case.rng.choice([None, 'det', 'sparse', 'tiny', 'grid', 'dense']))
    if rare and len(p['start']) > 1 and case.rng.random() < .4:    # unlikely, not impossible
        i, j = case.rng.sample(range(len(p['start'])), 2)
        start = np.array(p['start'], dtype=float)
        start[i] = case.rng.choice([1e-3, 1e-6, 1e-9, 1e-12])
        start[j] += 1. - start.sum()
        if (start >= 0).all():
            p['start'] = start
    g = policies.graph_parts(case, n_states=p['O'].shape[1], observations=p['observations'], actions=p['actions'])
    return p, g, gen.make_pomdp(p), policies.make(g)


def at_belief(case, p, g, run, b, what):
    best = policies.best_nodes(g['values'], b)
    case.close(run.current_belief, b, what + ': belief')
    case.check(int(run.current) in best, '{}: node {} is not the best at the belief ({})', what, run.current, best)
    case.equal(run.get_action(), g['actions'][int(run.current)], what + ': action')


def case_belief(case):
    from task_models.lib.pomdp import GraphPolicyBeliefRunner, Impossible
    p, g, m, gp = setup(case)
    run = GraphPolicyBeliefRunner(gp, m)
    b = [float(x) for x in p['start']]
    hist = []
    for _ in range(case.rng.randint(3, 25)):
        at_belief(case, p, g, run, b, 'after {}'.format(hist[-6:]))
        if case.rng.random() < .08:
            if case.rng.random() < .5:
                run.reset()
                b = [float(x) for x in p['start']]
            else:
                nb = case.np.dirichlet(np.ones(len(b)))
                b = [float(x) for x in nb]
                run.reset(belief=nb)
            hist.append('reset')
            continue
        k = case.rng.randrange(len(p['observations']))
        o = p['observations'][k]
        before = int(run.current), run.get_action()
        nb, z = gen.bayes(p['T'], p['O'], p['actions'].index(before[1]), k, b)
        if 0 < z < 1e-200:
            break
        hist.append((before[1], o))
        if nb is None:
            case.raises(Impossible, lambda: run.step(o), 'impossible observation {}'.format(hist[-4:]))
            case.equal((int(run.current), run.get_action()), before, 'node and action after an impossible observation')
            case.event('impossible')
        else:
            run.step(o)
            b = nb
            case.event('belief-step')
    at_belief(case, p, g, run, b, 'at the end')
    case.key(p['T'].tobytes(), hist)
    case.note(start=p['start'], history=hist)


def check_tree(case, p, g, tree, b, horizon, path=()):
    """Recomputes an exported tree; the node chosen among ties is the exported one."""
    what = 'tree node after {}'.format(list(path))
    case.equal(set(tree), {'belief', 'action', 'node', 'observations', 'children'}, what + ': fields')
    case.close(tree['belief'], b, what + ': belief')
    case.check(tree['node'] in policies.best_nodes(g['values'], b), '{}: node {} is not the best', what, tree['node'])
    case.equal(tree['action'], g['actions'][tree['node']], what + ': action')
    exp = []
    if horizon > 0:
        a = p['actions'].index(tree['action'])
        for k, o in enumerate(p['observations']):
            nb, z = gen.bayes(p['T'], p['O'], a, k, b)
            if nb is not None:
                exp.append((o, nb))
    case.equal(list(tree['observations']), [o for o, _ in exp], what + ': possible observations')
    case.equal(len(tree['children']), len(exp), what + ': number of children')
    case.event('tree-node')
    for (o, nb), child in zip(exp, tree['children']):
        # continue from the exported belief: errors do not accumulate
        case.close(child['belief'], nb, what + ': belief after ' + str(o))
        check_tree(case, p, g, child, nb, horizon - 1, path + (o,))


def case_tree(case):
    from task_models.lib.pomdp import GraphPolicyBeliefRunner, Impossible
    p, g, m, gp = setup(case, 3, 3, rare=True)
    run = GraphPolicyBeliefRunner(gp, m)
    b = [float(x) for x in p['start']]
    for _ in range(case.rng.randint(0, 3)):
        k = case.rng.randrange(len(p['observations']))
        nb, z = gen.bayes(p['T'], p['O'], p['actions'].index(run.get_action()), k, b)
        if nb is not None:
            run.step(p['observations'][k])
            b = nb
    h = case.rng.randint(0, 4)
    node = int(run.current)
    tree = run.trajectory_tree(h)
    check_tree(case, p, g, tree, b, h)
    case.close(run.current_belief, b, 'belief after exporting')
    case.equal(int(run.current), node, 'node after exporting')
    case.equal(tree['node'], node, 'root of the exported tree')
    h = case.rng.randint(0, 3)
    if case.rng.random() < .5:
        forest = run.trajectory_trees_from_starts(horizon=h)
    else:
        path = os.path.join(case.ctx.scratch, 't{}-{}.json'.format(os.getpid(), case.index))
        gen.previous(case, path)
        run.save_trajectories_from_starts(path, horizon=h, indent=case.rng.choice([None, 1]))
        with open(path) as f:
            forest = json.load(f)
        os.remove(path)
    starts = [i for i, x in enumerate(p['start']) if x > 0]
    case.equal(list(forest), ['graphs'], 'exported trees')
    case.equal(len(forest['graphs']), len(starts), 'number of exported trees')
    for s, t in zip(starts, forest['graphs']):
        check_tree(case, p, g, t, [1. if i == s else 0. for i in range(len(p['start']))], h)
    json.dumps(forest)
    run.reset()
    at_belief(case, p, g, run, [float(x) for x in p['start']], 'reset after exporting')
    case.key('tree', h, tree['action'], tree['observations'], p['T'].tobytes())
    case.note(horizon=h, start=p['start'], root=tree['observations'])


def case_visit(case):
    from task_models.lib.pomdp import GraphPolicyBeliefRunner
    p, g, m, gp = setup(case, 4, 4)
    big = case.rng.choice([3, 8, 25, 60])
    run = GraphPolicyBeliefRunner(gp, m)
    v = run.visit(max_states=big)
    beliefs = np.array(v.values)
    n = v.n_nodes
    case.equal(beliefs.shape, (n, len(p['start'])), 'visited beliefs')
    case.equal(list(v.observations), p['observations'], 'observations of the visited graph')
    case.equal(int(v.init), 0, 'initial node of the visited graph')
    case.close(beliefs[0], p['start'], 'belief of the initial node')
    # At most one expansion overshoots the bound
    case.check(n <= big + len(p['observations']), '{} nodes visited, the bound is {}', n, big)
    unexpanded = 0
    reached = {0}
    for i in range(n):
        b = [float(x) for x in beliefs[i]]
        case.check(abs(sum(b) - 1) < 1e-9 and min(b) >= 0, 'node {} is not a belief', i)
        action = v.get_action(i)
        case.check(action in [g['actions'][j] for j in policies.best_nodes(g['values'], b)],
                   'action of visited node {} is not the best at its belief', i)
        post = [gen.bayes(p['T'], p['O'], p['actions'].index(action), k, b) for k in range(len(p['observations']))]
        succ = [v.next(i, o) for o in p['observations']]
        if n > big and all(x is None for x in succ):
            unexpanded += 1
            case.event('visit-frontier')
            continue
        case.check(not unexpanded, 'node {} was expanded before earlier ones', i)
        for k, ((nb, z), t) in enumerate(zip(post, succ)):
            if 0 < z < 1e-200:
                continue
            case.equal(t is None, nb is None, 'visited node {}: observation {} leads nowhere'.format(
                i, p['observations'][k]))
            if t is not None:
                t = int(t)
                case.check(0 <= t < n, 'visited node {} leads to {}, out of range', i, t)
                d = float(np.linalg.norm(beliefs[t] - np.array(nb)))
                case.check(d < 1.0001e-2, 'visited node {}: observation {} leads to a belief at distance {}', i,
                           p['observations'][k], d)
                reached.add(t)
                case.event('visit-edge')
    case.check(len(reached) == n, 'some visited nodes can not be reached')
    for i in range(n):
        for j in range(i):
            case.check(np.linalg.norm(beliefs[i] - beliefs[j]) > .9999e-2, 'visited nodes {} and {} are the same', i, j)
    case.key('visit', n, p['T'].tobytes())
    case.note(nodes=n, bound=big)


def run(ctx):
    ctx.cases('graph', ctx.n(6400, 40000), case_graph)
    ctx.cases('belief', ctx.n(6400, 40000), case_belief)
    ctx.cases('tree', ctx.n(2400, 15000), case_tree)
    ctx.cases('visit', ctx.n(2400, 15000), case_visit)
    for k in ('edge', 'no-edge', 'reset', 'belief-step', 'impossible', 'tree-node', 'visit-edge', 'visit-frontier'):
        ctx.require(k, 50)
