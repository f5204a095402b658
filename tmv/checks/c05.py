"""C05: saved models and policies reload to equals."""
import copy
import glob
import json
import os

import numpy as np

from .. import core, gen, policies, pomdpfile

PROPERTY = 'C05'
RULE = ('random models and policy graphs go through 1-3 save/load cycles (string and file), and the loaded object is '
        'compared with the numbers it was made from, by attributes and by queries; shipped policy files are loaded '
        'and saved again. Non-trivial: distinct (kind, shape, content).')


def strict(text, case):
    def no(c):
        case.fail('the JSON text contains the non-standard constant ' + c)
    return json.loads(text, parse_constant=no)


def same_model(case, m, p, R, what):
    a, s, o = p['O'].shape
    for key, n in (('states', s), ('actions', a), ('observations', o)):
        exp = list(range(n)) if p.get(key) is None else list(p[key])
        case.equal(list(getattr(m, key)), exp, '{}: {}'.format(what, key))
    case.equal(m.discount, p['discount'], what + ': discount')
    for k, exp in (('T', p['T']), ('O', p['O']), ('start', p['start']), ('R', R)):
        case.close(getattr(m, k), exp, '{}: {}'.format(what, k), 0)


def same_file(case, m, m0):
    """Whatever the solver file of the original is, the one of the reloaded model means the same."""
    try:
        d0 = pomdpfile.parse(m0.dump())
    except Exception:
        case.event('dump-unreadable')       # C04's concern
        return
    try:
        d = pomdpfile.parse(m.dump())
    except Exception as e:
        case.fail('solver file of the reloaded model is not readable: ' + core.describe_exc(e))
    for k in d0:
        norm = (lambda x: [str(i) for i in range(x)] if isinstance(x, int) else x)
        case.check(norm(d[k]) == norm(d0[k]), 'solver file of the reloaded model differs on {}', k)


def case_model(case):
    from task_models.lib.pomdp import POMDP
    p = gen.pomdp_parts(case)
    cost = case.rng.random() < .3
    R = -p['R'] if cost else p['R']
    m0 = m = gen.make_pomdp(p, values='cost' if cost else 'reward')
    for i in range(case.rng.randint(1, 3)):
        if case.rng.random() < .3:
            # as it is now, whatever it was when saved before
            if case.rng.random() < .5:
                m.as_json()
            p = gen.edit_model(case, m, p)
            R, cost, m0 = p['R'], False, m
        way = case.rng.choice(['string', 'file', 'dict'])
        if way == 'string':
            text = m.as_json()
            d = strict(text, case)
            m = POMDP.from_json(text)
        elif way == 'file':
            path = os.path.join(case.ctx.scratch, 'm{}-{}.json'.format(os.getpid(), case.index))
            gen.previous(case, path)
            m.save_as_json(path)
            with open(path) as f:
                d = strict(f.read(), case)
            m = POMDP.load_from_json(path)
            os.remove(path)
        else:
            d = m.to_dict()
            m = POMDP.from_dict(d)
        case.close(d['T'], p['T'], 'T in the saved model', 0)
        case.close(d['R'], R, 'R in the saved model', 0)
        same_model(case, m, p, R, 'reloaded model')
        case.event('model-cycle')
    same_model(case, m0, p, R, 'model after saving')
    # same behaviour
    a, s, o = p['O'].shape
    b = case.np.dirichlet(np.ones(s))
    for i in range(a):
        for j in range(o):
            exp, z = gen.bayes(p['T'], p['O'], i, j, b)
            if exp is not None and z > 1e-250:
                case.close(m.belief_update(i, j, b), exp, 'belief update of the reloaded model')
    same_file(case, m, m0)
    seed = case.rng.randrange(2 ** 32)
    runs = []
    for x in (m, m0):
        np.random.seed(seed)
        st = x.sample_start()
        runs.append([st] + [tuple(x.sample_transition(k % a, st)) for k in range(10)])
    case.equal(repr(runs[0]), repr(runs[1]), 'simulation of the reloaded model')
    case.key('model', p['O'].shape, p['T'].tobytes())
    case.note(shape=p['O'].shape, named='states' in p, discount=p['discount'])


def case_policy(case):
    from task_models.lib.pomdp import GraphPolicy
    g = policies.graph_parts(case, observations=[3, 5, 7] if case.rng.random() < .1 else None)
    start = None
    if case.rng.random() < .3:
        start = case.np.dirichlet(np.ones(g['values'].shape[1]))
        gp = policies.make(g, start=start)
        case.check(int(gp.init) in policies.best_nodes(g['values'], start),
                   'initial node {} is not the best for the start belief', gp.init)
        g['init'] = int(gp.init)
    else:
        gp = policies.make(g)
    orig = gp
    for _ in range(case.rng.randint(1, 3)):
        way = case.rng.choice(['string', 'indent', 'file', 'dict'])
        if way in ('string', 'indent'):
            text = gp.to_json() if way == 'string' else gp.to_json(indent=2)
            strict(text, case)
            gp = GraphPolicy.from_json(text)
        elif way == 'file':
            path = os.path.join(case.ctx.scratch, 'p{}-{}.json'.format(os.getpid(), case.index))
            gen.previous(case, path)
            gp.save_as_json(path, indent=case.rng.choice([None, 2]))
            with open(path) as f:
                strict(f.read(), case)
            gp = GraphPolicy.load_from_json(path)
            os.remove(path)
        else:
            gp = GraphPolicy.from_dict(copy.deepcopy(gp.to_dict()))
        policies.same(case, gp, g, 'reloaded policy')
        b = case.np.dirichlet(np.ones(g['values'].shape[1]))
        case.check(int(gp.get_node_from_belief(b)) in policies.best_nodes(g['values'], b),
                   'node for a belief in the reloaded policy is not the best')
        case.event('policy-cycle')
    policies.same(case, orig, g, 'policy after saving')
    case.key('policy', g['actions'], g['transitions'], g['init'])
    case.note(policy={k: g[k] for k in ('actions', 'observations', 'transitions', 'init')})


def case_visited(case):
    """Policies made by the library itself can be saved too."""
    from task_models.lib.pomdp import GraphPolicy, GraphPolicyBeliefRunner
    p = gen.pomdp_parts(case, max_s=3, style='det' if case.rng.random() < .5 else 'sparse', named=True)
    g = policies.graph_parts(case, n_states=p['O'].shape[1], observations=p['observations'], actions=p['actions'])
    m = gen.make_pomdp(p)
    v = GraphPolicyBeliefRunner(policies.make(g), m).visit(max_states=6)
    parts = dict(actions=list(v.actions), observations=list(v.observations), init=int(v.init),
                 transitions=[[v.next(i, o) for o in v.observations] for i in range(v.n_nodes)],
                 values=np.array(v.values))
    text = v.to_json()
    strict(text, case)
    policies.same(case, GraphPolicy.from_json(text), parts, 'reloaded visited policy')
    policies.same(case, v, parts, 'visited policy after saving')
    case.event('visited-cycle')
    case.key('visit', parts['actions'], repr(parts['transitions']))


def case_shipped(case):
    from task_models.lib.pomdp import GraphPolicy
    files = sorted(glob.glob(os.path.join(core.REPO, 'visualization', 'policy', 'json', '*.json')))
    for f in files:
        with open(f) as fp:
            d = json.load(fp)
        if set(d) != {'actions', 'observations', 'transitions', 'values', 'initial'}:
            continue
        gp = GraphPolicy.load_from_json(f)
        again = json.loads(gp.to_json())
        case.equal(again, dict(d, initial=str(d['initial'])), 'shipped policy {} saved again'.format(os.path.basename(f)))
        case.event('shipped')
        case.key('shipped', os.path.basename(f))


def run(ctx):
    ctx.cases('model', ctx.n(4000, 20000), case_model)
    ctx.require('edited: randomize', 100)
    ctx.cases('policy', ctx.n(5600, 30000), case_policy)
    ctx.cases('visited', ctx.n(1200, 5000), case_visited)
    ctx.cases('shipped', 1, case_shipped)
    for k in ('model-cycle', 'policy-cycle', 'visited-cycle'):
        ctx.require(k, 50)
    ctx.require('shipped', 1)
