"""C09: bring-next POMDPs encode the task's execution semantics."""
import numpy as np

from .. import gen, taskref

PROPERTY = 'C09'
RULE = ('random task trees over objects (shared, repeated and unused objects; sequences, alternatives, parallels) and '
        'random options, tower problems of many sizes and the hold-and-release model; every entry of the model is '
        'compared, by name, with a reference built from the semantics of the tree. '
        'Non-trivial: distinct (tree, options).')
ASSUMPTIONS = ['the solver executable is replaced by a stand-in, as models refuse to be built without one',
               'branch probabilities given to an alternative are documented as not used by this converter (uniform)']


def reference(tree, opt):
    order, nexts, after, first = taskref.annotate(tree)
    states = ['before-' + leaf['name'].lower().replace(' ', '-') for leaf in order] + ['end']
    where = lambda d: {states[-1] if k == 'end' else states[k]: p for k, p in d.items()}
    start = where(first)
    loop = opt.get('loop', True)
    actions = [k + '-' + o for k in ('get', 'ask') for o in opt['objects']]
    T, O, C = {}, {}, {}
    for o in opt['objects']:
        get, ask = 'get-' + o, 'ask-' + o
        yes = {'none': .1, 'yes': .9} if opt.get('no_answer') else {'yes': 1.}
        no = {'none': .1, 'no': .9} if opt.get('no_answer') else {'no': 1.}
        completed = set()
        for i, leaf in enumerate(order):
            s = states[i]
            good = leaf['obj'] == o
            T[get, s] = where(nexts[i]) if good else {s: 1.}
            T[ask, s] = {s: 1.}
            O[ask, s] = yes if good else no
            if good:
                completed |= set(T[get, s])
            for s2 in states:
                C[get, s, s2] = opt['t_get'] if good and s2 in T[get, s] else opt['t_err']
                C[ask, s, s2] = opt['t_com']
        O[ask, 'end'] = no
        for s in states:
            O[get, s] = {'none': .9, 'error': .1} if s in completed else {'error': 1.}
        for a in (get, ask):
            T[a, 'end'] = start if loop else {'end': 1.}
            for s2 in states:
                if loop:
                    C[a, 'end', s2] = -opt['end_reward']
                else:
                    C[a, 'end', s2] = (opt['t_err'] if a == get else opt['t_com'])
                    if s2 == 'end':
                        C[a, 'end', s2] = 0.
            if not loop:
                for s in states[:-1]:
                    C[a, s, 'end'] -= opt['end_reward']
    discount = opt.get('discount')
    if discount is None:
        discount = .9 if loop else 1.
    return dict(states=states, actions=actions, observations=['none', 'yes', 'no', 'error'], start=start,
                T=T, O=O, C=C, discount=discount)


def compare(case, m, ref):
    for k in ('states', 'actions', 'observations'):
        case.equal(sorted(getattr(m, k)), sorted(ref[k]), k)
    case.equal(m.discount, ref['discount'], 'discount')
    rs, ra, ro = ref['states'], ref['actions'], ref['observations']
    S = [list(m.states).index(s) for s in rs]
    A = [list(m.actions).index(a) for a in ra]
    Z = [list(m.observations).index(o) for o in ro]
    case.close(np.asarray(m.start)[S], [ref['start'].get(s, 0.) for s in rs], 'start over {}'.format(rs))
    T = np.asarray(m.T)[np.ix_(A, S, S)]
    O = np.asarray(m.O)[np.ix_(A, S, Z)]
    C = -np.asarray(m.R)[np.ix_(A, S, S, Z)]
    for i, a in enumerate(ra):
        for j, s in enumerate(rs):
            exp = [ref['T'][a, s].get(s2, 0.) for s2 in rs]
            if np.abs(T[i, j] - exp).max() > 1e-9:
                case.fail('{} in {} leads to {}, expected {}'.format(a, s, dict(zip(rs, T[i, j])), ref['T'][a, s]))
            exp = [ref['O'][a, s].get(o, 0.) for o in ro]
            if np.abs(O[i, j] - exp).max() > 1e-9:
                case.fail('{} arriving in {} observes {}, expected {}'.format(
                    a, s, dict(zip(ro, O[i, j])), ref['O'][a, s]))
            for k, s2 in enumerate(rs):
                exp = ref['C'][a, s, s2]
                if np.abs(C[i, j, k] - exp).max() > 1e-9 * (1 + abs(exp)):
                    case.fail('cost of {} from {} to {} is {}, expected {}'.format(a, s, s2, C[i, j, k], exp))
            case.event('rows')


def random_leaf(objects, distinct):
    def leaf_of(case):
        def leaf(i):
            name = case.rng.choice(['Get {}', 'Mount Top {}', 'x{}', 'a-b {}']).format(i)
            return dict(name=name, obj=objects[i % len(objects)] if distinct else case.rng.choice(objects))
        return leaf
    return leaf_of


def make_action(p):
    from task_models.bring_next_to_pomdp import CollaborativeAction
    return CollaborativeAction(p['name'], p['obj'])


def rename(p, fmt):
    return dict(p, name=fmt.format(p['name']))


def options(case, objects):
    r = case.rng
    opt = dict(t_com=r.choice([1., 2.5, 0]), t_get=r.choice([5., .5, 7, 0.]), t_err=r.choice([10., 3., 0]),
               objects=list(objects))
    if r.random() < .7:
        opt['end_reward'] = r.choice([10., 0., 42.])
    if r.random() < .7:
        opt['loop'] = r.random() < .5
    if r.random() < .5:
        opt['discount'] = r.choice([None, 1., .5, .99, 0., 0])
    if r.random() < .6:
        opt['no_answer'] = r.random() < .6
    return opt


def build(case, tree, opt, root):
    from task_models.bring_next_to_pomdp import HTMToPOMDP
    from task_models.task import HierarchicalTask
    kw = dict(opt)
    conv = HTMToPOMDP(kw.pop('t_com'), kw.pop('t_get'), kw.pop('t_err'), kw.pop('objects'), **kw)
    task = root if isinstance(root, HierarchicalTask) else HierarchicalTask(root)
    before = repr(task.as_dictionary())
    m = conv.task_to_pomdp(task)
    case.equal(repr(task.as_dictionary()), before, 'task after conversion')
    ref = reference(taskref.expand(tree, rename), dict(opt, end_reward=opt.get('end_reward', 10.)))
    compare(case, m, ref)
    if case.rng.random() < .3:
        compare(case, conv.task_to_pomdp(task), ref)
        case.event('converted-twice')
    case.event('models')
    return ref


def case_random(case):
    objects = ['obj{}'.format(i) for i in range(case.rng.randint(1, 5))]
    tree = gen.random_tree(case, case.rng.randint(0, 3), 3, random_leaf(objects, case.rng.random() < .4)(case),
                           max_leaves=case.rng.choice([4, 8, 12]))
    check_tree(case, objects, tree)


def case_large(case):
    r = case.rng
    objects = [r.choice(['obj{}', 'Leg {}', '{}-box']).format(i) for i in range(r.randint(1, 12))]
    r.shuffle(objects)
    depth, width = r.choice([(1, 40), (2, 15), (3, 8), (6, 3)])
    while True:
        tree = gen.random_tree(case, depth, width, random_leaf(objects, r.random() < .4)(case), max_leaves=40,
                               p_leaf=.5)
        if gen.expanded_leaves(tree) >= 13:
            break
    check_tree(case, objects, tree)
    case.event('large')


def check_tree(case, objects, tree):
    opt = options(case, objects)
    ref = build(case, tree, opt, gen.tree_to_htm(tree, make_action))
    case.key(repr(tree), repr(sorted(opt.items())))
    case.note(tree=tree, options=opt, states=ref['states'])
    for s in ('Parallel', 'Alternative'):
        if s in repr(tree):
            case.event('tree:' + s)
    for k in ('loop', 'no_answer'):
        if opt.get(k, k == 'loop'):
            case.event('option:' + k)


def case_tower(case):
    from task_models.tower_problem import TowerProblem
    r = case.rng
    default = r.random() < .2
    h, n = (2, 3) if default else r.choice([(r.randint(1, 4), r.randint(1, 4)), (r.randint(4, 7), 2), (2, r.randint(4, 7))])
    tp = TowerProblem() if default else TowerProblem(height=h, n_towers=n)
    parts = [str(i) for i in range(h * n)]
    case.equal(tp.n_parts, h * n, 'number of parts')
    case.equal(list(tp.parts), parts, 'parts')
    # part k of tower i is numbered i * height + k
    vertical = [i * h + k for i in range(n) for k in range(h)]
    horizontal = [i * h + k for k in range(h) for i in range(n)]
    task = tp.vertical_horizontal_task()
    tree = ('Alternative', 'Alt', [
        ('Sequential', name, [('leaf', dict(name='{}-{}'.format(p, name), obj=str(p))) for p in order])
        for name, order in (('vertical', vertical), ('horizontal', horizontal))])
    got = taskref.describe(task.root)
    flat = [(c[0], c[1], [(x[1].name, x[1].obj) for x in c[2]]) for c in got[2]]
    case.equal((got[0], flat), ('Alternative', [
        (c[0], c[1], [(x[1]['name'], x[1]['obj']) for x in c[2]]) for c in tree[2]]), 'tower task')
    opt = options(case, parts)
    build(case, tree, opt, task)
    # other orders
    orders = [r.sample(range(h * n), h * n) for _ in range(r.choice([1, 2, 3, 13] if h * n < 5 else [1, 2, 3]))]
    task = tp.task_from_orders(orders)
    tree = ('Alternative', 'Alt', [
        ('Sequential', str(i), [('leaf', dict(name='{}-{}'.format(p, i), obj=str(p))) for p in order])
        for i, order in enumerate(orders)])
    build(case, tree, opt, task)
    case.event('towers')
    case.key('tower', h, n, repr(orders))


def case_hold(case):
    from task_models.hold_and_release import hold_and_release_pomdp
    r = case.rng
    cw, cf, cc = r.uniform(0, 9), r.uniform(0, 99), r.uniform(0, 9)
    args = [cw, cf, cc]
    p = .2
    if r.random() < .7:
        p = r.choice([0., 1., r.random()])
        args.append(p)
    m = hold_and_release_pomdp(*args)
    case.equal((list(m.states), list(m.actions), list(m.observations)),
               (['zero', 'one', 'final'], ['wait', 'physical', 'communicate'], ['nothing', 'doing', 'done']), 'names')
    case.equal(m.discount, 1, 'discount')
    case.close(m.start, [1, 0, 0], 'start')
    seen = {'zero': 'doing', 'one': 'done', 'final': 'nothing'}
    for i, a in enumerate(m.actions):
        for j, s in enumerate(m.states):
            nxt = {'zero': {'zero': 1 - p, 'one': p},
                   'one': {'final': 1.} if a == 'physical' else {'one': 1.},
                   'final': {'final': 1.}}[s]
            case.close(m.T[i, j], [nxt.get(x, 0.) for x in m.states], 'transition of {} in {}'.format(a, s))
            o = 'nothing' if a == 'wait' else seen[s]
            case.close(m.O[i, j], [float(x == o) for x in m.observations], 'observation of {} in {}'.format(a, s))
            cost = {'wait': cw, 'physical': cf if s == 'zero' else 0., 'communicate': cc}[a]
            case.close(m.R[i, j], np.full((3, 3), -cost), 'reward of {} in {}'.format(a, s))
    case.event('hold')
    case.key('hold', args)


def case_unknown(case):
    from task_models.task import HierarchicalTask, BaseCombination, SequentialCombination, LeafCombination
    from task_models.bring_next_to_pomdp import HTMToPOMDP
    node = BaseCombination(None, None, name='what')
    if case.rng.random() < .5:
        node = SequentialCombination([LeafCombination(make_action(dict(name='a', obj='o'))), node], name='s')
    case.raises(ValueError, lambda: HTMToPOMDP(1., 1., 1., ['o']).task_to_pomdp(HierarchicalTask(node)),
                'conversion of a node of unknown kind')
    case.event('unknown-kind')


def run(ctx):
    ctx.cases('random', ctx.n(2000, 20000), case_random)
    ctx.cases('large', ctx.n(120, 1200), case_large)
    ctx.require('large', 20)
    ctx.cases('tower', ctx.n(240, 1000), case_tower)
    ctx.cases('hold', ctx.n(240, 1000), case_hold)
    ctx.cases('unknown', 4, case_unknown)
    for k in ('models', 'converted-twice', 'tree:Parallel', 'tree:Alternative', 'option:loop', 'option:no_answer',
              'towers', 'hold'):
        ctx.require(k, 20)
