"""Random policy graphs."""
import numpy as np

from . import gen


def graph_parts(case, n_states=None, observations=None, actions=None, p_none=None, distinct_values=True, max_nodes=6):
    r = case.np
    n = r.randint(1, max_nodes + 1)
    n_states = n_states or r.randint(1, 5)
    if observations is None:
        observations = gen.names(r, r.randint(1, 5), 'o')
    if actions is None:
        actions = gen.names(r, r.randint(1, 5), 'a')
    if p_none is None:
        p_none = [0., .3, 1., .7][r.randint(4)]
    trans = [[None if r.rand() < p_none else int(r.randint(n)) for _ in observations] for _ in range(n)]
    values = r.randn(n, n_states) * 10
    if not distinct_values:
        values = np.round(values)
    return dict(actions=[actions[r.randint(len(actions))] for _ in range(n)], observations=list(observations),
                transitions=trans, values=values, init=int(r.randint(n)))


def make(parts, **kw):
    from task_models.lib.pomdp import GraphPolicy
    d = dict(actions=list(parts['actions']), observations=list(parts['observations']),
             transitions=[list(t) for t in parts['transitions']], values=np.array(parts['values']))
    if 'start' not in kw:
        d['init'] = parts['init']
    d.update(kw)
    return GraphPolicy(d.pop('actions'), d.pop('observations'), d.pop('transitions'), d.pop('values'), **d)


def same(case, gp, parts, what='policy', init=True):
    """All observable aspects of the policy are those of the parts."""
    n = len(parts['actions'])
    case.equal(gp.n_nodes, n, what + ': number of nodes')
    case.equal(list(gp.observations), parts['observations'], what + ': observations')
    if init:
        case.equal(int(gp.init), parts['init'], what + ': initial node')
    case.close(gp.values, parts['values'], what + ': values', 0)
    for i in range(n):
        case.equal(gp.get_action(i), parts['actions'][i], '{}: action of node {}'.format(what, i))
        for j, o in enumerate(parts['observations']):
            case.equal(gp.next(i, o), parts['transitions'][i][j], '{}: successor of node {} on {}'.format(what, i, o))


def best_nodes(values, b, tol=1e-9):
    v = [sum(float(x) * float(y) for x, y in zip(row, b)) for row in values]
    m = max(v)
    return [i for i, x in enumerate(v) if x >= m - tol * (1 + abs(m))]
