"""C08: role-assignment POMDPs encode the task's execution semantics."""
import math

import numpy as np

from .. import gen, taskref

PROPERTY = 'C08'
RULE = ('random task trees (sequences, alternatives, parallels, up to 28 expanded leaves, random durations and '
        'probabilities) and random settings of all options; every entry of the generated model is compared, by state, '
        'action and observation name, with a reference built from the execution semantics of the tree. '
        'Non-trivial: distinct (tree, options).')
ASSUMPTIONS = ['the solver executable is replaced by a stand-in, as models refuse to be built without one',
               'branch probabilities given to an alternative are documented as not used by this converter (uniform)']

NONE, YES, NO, ERR, DONE = 'none', 'yes', 'no', 'error', 'done'


def reference(tree, opt):
    """name -> index free description: dictionaries T[a][s][s2], O[a][s2], C[a][s][s2] (costs)."""
    order, nexts, after, first = taskref.annotate(tree)
    radix = [leaf['name'].lower().replace(' ', '-') for leaf in order]
    det, struct, loop, rs = (opt[k] for k in ('deterministic', 'structured', 'loop', 'reward_state'))
    sub = opt['subtask_reward']
    intr = opt['intr_cost']
    fin = 'end-reward' if rs else 'end'         # where completing the task leads
    init = ['init-' + r for r in radix]
    states = [p + r for r in radix for p in ('init-', 'H-', 'R-')] + (['end-reward'] if rs else []) + ['end']
    kinds = [('phy-', 'err'), ('com-ask-intention-', 'ask'), ('com-tell-intention-', 'tell'),
             ('com-ask-finished-', 'ask')]
    actions = ['wait'] + [k + r for r in radix for k, _ in kinds]
    dur = {'wait': opt['t_wait']}
    for leaf, r in zip(order, radix):
        for k, d in kinds:
            dur[k + r] = {'err': leaf['durations'][2], 'ask': opt['t_ask'], 'tell': opt['t_tell']}[d]
    start = {init[k]: p for k, p in first.items()}
    T = {a: {s: {} for s in states} for a in actions}
    C = {a: {s: {} for s in states} for a in actions}      # base cost; then exceptions by next state
    O = {a: {s: None for s in states} for a in actions}

    for i, (leaf, r) in enumerate(zip(order, radix)):
        si, sh, sr = 'init-' + r, 'H-' + r, 'R-' + r
        nxt = {(fin if k == 'end' else init[k]): p for k, p in nexts[i].items()}
        phy, ask, tell, askf = (k + r for k, _ in kinds)
        t_hum, t_rob, _ = leaf['durations']
        for a in actions:
            # nothing declared yet: only communication about this subtask changes anything
            if a == ask:
                T[a][si] = {sr: leaf['no'], sh: 1 - leaf['no']}
            elif a == tell:
                T[a][si] = {sr: 1.}
            else:
                T[a][si] = {si: 1.}
            # the human is working: finishes at a rate given by its duration
            if det:
                T[a][sh] = dict(nxt) if a == askf else {sh: 1.}
            else:
                p = math.exp(-dur[a] / t_hum)
                T[a][sh] = {sh: p}
                for s2, q in nxt.items():
                    T[a][sh][s2] = (1 - p) * q
            # the robot should work
            if a == phy:
                T[a][sr] = {sr: leaf['fail']}
                for s2, q in nxt.items():
                    T[a][sr][s2] = (1 - leaf['fail']) * q
            else:
                T[a][sr] = {sr: 1.}
            for s in (si, sh, sr):
                c = dur[a] + (0 if a == 'wait' else intr)
                if a == phy and s == sr:
                    c = t_rob + intr
                for s2 in states:
                    C[a][s][s2] = c
        later = set(p + radix[k] for k in after[i] for p in ('init-', 'H-', 'R-')) | {fin}
        for s in states:
            O[phy][s] = NONE if s in nxt else ERR
            O[ask][s] = YES if s == sh else NO if s == sr else (ERR if struct else NONE)
            O[tell][s] = NONE if not struct or s == sr else ERR
            if det:
                O[askf][s] = NO if s == sh else YES if s in nxt else ERR
            else:
                O[askf][s] = YES if s in later else NO
    if struct:
        # telling is penalised everywhere but where it makes sense
        for i, r in enumerate(radix):
            tell = 'com-tell-intention-' + r
            for s in states:
                if not s.startswith('end'):
                    for s2 in states:
                        C[tell][s][s2] = 100
            for s2 in ('H-' + r, 'R-' + r):
                C[tell]['init-' + r][s2] = opt['t_tell'] + intr
    if sub is not None:
        for r in radix:
            own = ['init-' + r, 'H-' + r, 'R-' + r]
            for a in actions:
                for s in own:
                    for s2 in states:
                        if s2 not in own:
                            C[a][s][s2] -= sub
    for a in actions:
        O['wait'] = {s: NONE for s in states}
    for a in actions:
        for s2 in states:
            if rs:
                C[a]['end-reward'][s2] = -opt['end_reward'] if a == 'wait' else intr
                C[a]['end'][s2] = 0 if a == 'wait' else intr
            else:
                C[a]['end'][s2] = -opt['end_reward'] if a == 'wait' else intr
        if rs:
            T[a]['end-reward'] = {'end': 1.}
        T[a]['end'] = dict(start) if loop else {'end': 1.}
        if rs:
            O[a]['end-reward'] = DONE
            O[a]['end'] = NONE
        elif loop:
            O[a]['end'] = DONE
    obs = [NONE, YES, NO, ERR] + ([DONE] if loop or rs else [])
    return dict(states=states, actions=actions, observations=obs, start=start, T=T, O=O, C=C, radix=radix)


def compare(case, m, ref, opt):
    states, actions, obs = list(m.states), list(m.actions), list(m.observations)
    case.equal(sorted(states), sorted(ref['states']), 'states')
    case.equal(sorted(actions), sorted(ref['actions']), 'actions')
    case.equal(sorted(obs), sorted(ref['observations']), 'observations')
    case.equal(m.discount, 1., 'discount')
    S = [states.index(s) for s in ref['states']]
    A = [actions.index(a) for a in ref['actions']]
    Z = [obs.index(o) for o in ref['observations']]
    rs, ra, ro = ref['states'], ref['actions'], ref['observations']
    start = [ref['start'].get(s, 0.) for s in rs]
    case.close(np.asarray(m.start)[S], start, 'start distribution over {}'.format(rs))
    T = np.asarray(m.T)[np.ix_(A, S, S)]
    O = np.asarray(m.O)[np.ix_(A, S, Z)]
    C = -np.asarray(m.R)[np.ix_(A, S, S, Z)]
    for i, a in enumerate(ra):
        exp = np.array([[ref['T'][a][s].get(s2, 0.) for s2 in rs] for s in rs])
        bad = np.argwhere(np.abs(T[i] - exp) > 1e-9)
        if len(bad):
            j, k = bad[0]
            case.fail('transition ({}, {} -> {}) has probability {}, expected {}'.format(
                a, rs[j], rs[k], T[i, j, k], exp[j, k]))
        exp = np.array([[1. if o == ref['O'][a][s] else 0. for o in ro] for s in rs])
        bad = np.argwhere(np.abs(O[i] - exp) > 1e-9)
        if len(bad):
            j = bad[0][0]
            case.fail('observation of {} arriving in {} is {}, expected {}'.format(
                a, rs[j], dict(zip(ro, O[i, j])), ref['O'][a][rs[j]]))
        case.event('rows', 2 * len(rs))
    misplaced = False
    for i, a in enumerate(ra):
        exp = np.array([[ref['C'][a][s][s2] for s2 in rs] for s in rs], dtype=float)[:, :, None]
        bad = np.argwhere(np.abs(C[i] - exp) > 1e-9 * (1 + np.abs(exp)))
        case.event('costs', exp.size)
        for j, k, z in bad:
            if opt['structured'] and a.startswith('com-tell-intention-') and ref['C'][a][rs[j]][rs[k]] != C[i, j, k, z]:
                r = a[len('com-tell-intention-'):]
                other = rs[j].split('-', 1)[1]
                # known: whichever of the two subtasks comes last erases what the other one wrote
                if not rs[j].startswith('end') and other != r:
                    inner = rs[k] in ('init-' + other, 'H-' + other, 'R-' + other)
                    base = opt['t_tell'] + opt['intr_cost'] - (
                        0 if inner or opt['subtask_reward'] is None else opt['subtask_reward'])
                    later = ref['radix'].index(other) > ref['radix'].index(r)
                    if abs(C[i, j, k, z] - (base if later else 100)) < 1e-9:
                        misplaced = (a, rs[j], C[i, j, k, z], exp[j, k, 0])
                        continue
            case.fail('cost of {} from {} to {} observing {} is {}, expected {}'.format(
                a, rs[j], rs[k], ro[z], C[i, j, k, z], exp[j, k, 0]))
    if misplaced:
        case.finding('structured-tell-cost-order',
                     'cost of {} from {} is {} instead of {}'.format(*misplaced))


def options(case):
    r = case.rng
    return dict(t_wait=r.choice([1., .5, 3]), t_ask=r.choice([2., 1, .25]), t_tell=r.choice([2., 1.5, 4]),
                intr_cost=r.choice([0, 1., .5, -.25]), end_reward=r.choice([10., 0., 3.5, -2.]),
                deterministic=r.random() < .3, structured=r.random() < .25, loop=r.random() < .4,
                reward_state=r.random() < .4, subtask_reward=r.choice([None, None, 2., 0., -1.5]))


def random_leaf(case):
    style = case.rng.random()

    def leaf(i):
        r = case.rng
        base = r.choice(['Get leg', 'SNAP', 'mixed Case name', 'a-b', 'x'])
        return dict(name='{} {}'.format(base, i) if style < .8 else 'Task{}'.format(i),
                    durations=(r.choice([3., 10, .01, 100.]) * r.uniform(.5, 2), r.uniform(1, 20), r.uniform(1, 30)),
                    fail=r.choice([.1, 0., 1., r.random()]), no=r.choice([.1, 0., 1., r.random()]))
    return leaf


def make_action(p):
    from task_models.task_to_pomdp import CollaborativeAction
    return CollaborativeAction(p['name'], p['durations'], human_probability=.3, fail_probability=p['fail'],
                               no_probability=p['no'])


def rename(p, fmt):
    return dict(p, name=fmt.format(p['name']))


def build(case, tree, opt, root):
    from task_models.task import HierarchicalTask
    from task_models.task_to_pomdp import HTMToPOMDP
    kw = dict(opt)
    conv = HTMToPOMDP(kw.pop('t_wait'), kw.pop('t_ask'), kw.pop('t_tell'), **kw)
    task = HierarchicalTask(root)
    before = repr(task.as_dictionary())
    m = conv.task_to_pomdp(task)
    case.equal(repr(task.as_dictionary()), before, 'task after conversion')
    ref = reference(taskref.expand(tree, rename), opt)
    compare(case, m, ref, opt)
    if case.rng.random() < .3:      # nothing is left over in the converter, the classes or the task
        m2 = conv.task_to_pomdp(task)
        compare(case, m2, ref, opt)
        case.event('converted-twice')
    case.event('models')
    return m, ref


def case_large(case):
    """Wide and deep tasks."""
    r = case.rng
    depth, width = r.choice([(1, 30), (2, 12), (3, 8), (6, 3)])
    least = 10
    while True:
        tree = gen.random_tree(case, depth, width, random_leaf(case), max_leaves=28, p_leaf=.5,
                               kinds=r.choice([('Sequential', 'Alternative'),
                                               ('Sequential', 'Alternative', 'Parallel'), ('Alternative',)]))
        if gen.expanded_leaves(tree) >= least:
            break
    check_tree(case, tree)
    case.event('large')


def case_random(case):
    check_tree(case, gen.random_tree(case, case.rng.randint(0, 3), 3, random_leaf(case),
                                     max_leaves=case.rng.choice([3, 6, 8])))


def check_tree(case, tree):
    opt = options(case)
    m, ref = build(case, tree, opt, gen.tree_to_htm(tree, make_action))
    case.key(repr(tree), sorted(opt.items(), key=str))
    case.note(tree=tree, options=opt, states=len(ref['states']))
    for k, v in opt.items():
        if v is True:
            case.event('option:' + k)
    for s in ('Parallel', 'Alternative'):
        if s in repr(tree):
            case.event('tree:' + s)


def case_stool(case):
    """The scenario shipped with the repository."""
    from task_models.stool_scenarios import stool_task_sequential
    tree = taskref.describe(stool_task_sequential.root)

    def payload(t):
        if t[0] == 'leaf':
            a = t[1]
            return ('leaf', dict(name=a.name, durations=a.durations, fail=a.fail_proba, no=a.no_proba))
        return (t[0], t[1], [payload(c) for c in t[2]])

    opt = options(case)
    build(case, payload(tree), opt, stool_task_sequential.root)
    case.event('stool')
    case.key('stool', sorted(opt.items(), key=str))


def case_unknown(case):
    from task_models.task import HierarchicalTask, BaseCombination, SequentialCombination, LeafCombination
    from task_models.task_to_pomdp import HTMToPOMDP
    node = BaseCombination(None, None, name='what')
    if case.rng.random() < .5:
        node = SequentialCombination([LeafCombination(make_action(random_leaf(case)(0))), node], name='s')
    case.raises(ValueError, lambda: HTMToPOMDP(1., 1., 1.).task_to_pomdp(HierarchicalTask(node)),
                'conversion of a node of unknown kind')
    case.event('unknown-kind')


def run(ctx):
    ctx.cases('random', ctx.n(3200, 15000), case_random)
    ctx.cases('large', ctx.n(100, 1200), case_large)
    ctx.cases('stool', ctx.n(32, 128), case_stool)
    ctx.cases('unknown', 4, case_unknown)
    for k in ('models', 'converted-twice', 'tree:Parallel', 'tree:Alternative', 'option:deterministic',
              'option:structured', 'option:loop', 'option:reward_state'):
        ctx.require(k, 20)
    ctx.require('large', 10)
    ctx.require('stool', 3)
