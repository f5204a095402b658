"""C11: the supportive-robot simulator follows the documented human-robot process."""
import collections

import numpy as np

from .. import gen, stats, supref, taskref

PROPERTY = 'C11'
RULE = ('random tasks (all step kinds, custom and shipped), parameters and preferences; every simulated step of '
        'exhaustive single steps, random walks and scripted episodes must be an outcome of the reference process, '
        'frequencies are tested with Chernoff bounds. Non-trivial: distinct (task, parameters, action, state).')
ASSUMPTIONS = ['probabilities of answers (.9 and .95) and of undesired holds (.02 success) are those in the code, which '
               'is their only documentation',
               'which supplies a "consumes some" step uses up stays random when randomness is disabled']

SHIPPED = {
    'BringTop': (None, [(supref.CONSUMES, 'top')]),
    'AssembleLeg': ('h', [(supref.USES, 'joints'), (supref.CONSUMES, 'leg'), (supref.USES, 'screwdriver'),
                          (supref.USES, 'screws')]),
    'AssembleFoot': ('h', [(supref.USES, 'joints'), (supref.CONSUMES, 'leg'), (supref.USES, 'screwdriver'),
                           (supref.USES, 'screws')]),
    'AssembleTopJoint': ('h', [(supref.USES, 'joints'), (supref.USES, 'screwdriver'), (supref.USES, 'screws')]),
    'AssembleLegToTop': ('v', [(supref.USES, 'screwdriver'), (supref.USES, 'screws')]),
    'AssembleLegToTop+top': ('v', [(supref.CONSUMES, 'top'), (supref.USES, 'screwdriver'), (supref.USES, 'screws')]),
}


def make_shipped(kind, i):
    from task_models import supportive as S
    if kind == 'BringTop':
        return S.BringTop()
    if kind == 'AssembleLegToTop+top':
        return S.AssembleLegToTop('leg-{}'.format(i), bring_top=True)
    return getattr(S, kind)('leg-{}'.format(i))


def wide_tree(case, leaf):
    """A task with many steps, many of which may follow each other."""
    while True:
        tree = gen.random_tree(case, *case.rng.choice([(1, 30), (2, 12), (3, 6), (3, 6), (6, 3)]), leaf, max_leaves=40,
                               p_leaf=.5)
        if gen.expanded_leaves(tree) >= 12:
            return tree


def random_process(case, max_leaves=8, n_prefs=None, max_objects=4, custom=None, some=True, large=False, wide=False):
    """Returns (model, reference process)."""
    from task_models import supportive as S
    r = case.rng
    custom = r.random() < .6 if custom is None else custom
    custom = custom or large
    pool = ['screws', 'glue', 'part', 'box'][:r.randint(1, max_objects)]
    if large:
        pool = ['object {}'.format(i) for i in range(r.randint(30, 90))]
        unused = list(pool)
    info = {}

    def leaf(i):
        if custom:
            hold = r.choice([None, 'h', 'v'])
            kinds = [supref.CONSUMES, supref.USES] + ([supref.SOME] if some else [])
            conds = [(r.choice(kinds), r.choice(pool)) for _ in range(r.randint(0, 3))]
            if large:
                conds = [(c, unused.pop() if unused else o) for c, o in conds]
            name = 'step {}'.format(i)
            info[name] = (hold, conds)
            return (name, None)
        kind = r.choice([k for k in SHIPPED if k != 'BringTop' or 'Bring Top' not in info])
        a = make_shipped(kind, i)
        info[a.name] = SHIPPED[kind]
        return (a.name, a)

    tree = ('Sequential', 'all', [('leaf', leaf(i)) for i in range(r.randint(10, 70))]) if large else \
        wide_tree(case, leaf) if wide else \
        gen.random_tree(case, r.choice([0, 1, 2, 2, 3]), 4, leaf, max_leaves=max_leaves)
    code = {supref.CONSUMES: S.CONSUMES, supref.USES: S.USES, supref.SOME: S.CONSUMES_SOME}

    def action(p):
        if p[1] is not None:
            return p[1]
        a = S.SupportedAction(p[0])
        a.hold, conds = info[p[0]]
        a.conditions = [(code[c], o) for c, o in conds]
        return a

    htm = gen.tree_to_htm(tree, action)
    kw = dict(gen_params(case))
    n_prefs = n_prefs if n_prefs is not None else r.choice([1, 1, 1, 2, 3])
    cls = type('Model', (S.SupportivePOMDP,), dict(
        kw, preferences=['hold', 'colour', 'speed'][:n_prefs],
        p_preferences=[r.choice([.3, 0., 1., r.random()]) for _ in range(n_prefs)]))
    model = cls(htm, discount=r.choice([1., .9]))
    base = {name: name for name in info}
    order, nexts, _, first = taskref.annotate(taskref.expand(
        tree, lambda p, f: (f.format(p[0]), p[1], p[2] if len(p) > 2 else p[0])))
    origin = {p[0]: (p[2] if len(p) > 2 else p[0]) for p in order}
    steps = {n: info[o] for n, o in origin.items()}
    names = [p[0] for p in order]
    # "to a random successor" of the current step: uniform over the steps that may come next
    succs = {names[i]: {('clean' if k == 'end' else names[k]): 1. / len(nx) for k in nx} for i, nx in nexts.items()}
    objects, clearable = [], []
    for n in names:
        for c, o in steps[n][1]:
            if o not in objects:
                objects.append(o)
            if c in (supref.USES, supref.SOME):
                clearable.append(o)
    proc = supref.Process(steps, succs, objects, clearable, kw, n_prefs)
    proc.first = [names[k] for k in first]
    proc.p_preferences = list(cls.p_preferences)
    proc.tree = tree
    # tables of the model
    case.equal(sorted(n.name for n in model.htm_nodes), sorted(names), 'steps of the model')
    case.equal(sorted(model.objects), sorted(objects), 'objects of the model')
    case.equal(sorted(model.actions), sorted(proc.actions()), 'actions of the model')
    case.equal(model.n_actions, len(proc.actions()), 'number of actions')
    case.equal(model.n_htm_states, len(names) + 2, 'number of task steps')
    case.equal(model.n_states, (len(names) + 2) * 2 ** (n_prefs + 1 + len(objects)), 'number of states')
    case.equal(list(model.observations), ['none', 'fail', 'not-found', 'yes', 'no'], 'observations')
    # described states order objects as the model does
    proc.objects = list(model.objects)
    return model, proc


def gen_params(case):
    r = case.rng
    if r.random() < .2:     # the defaults
        return dict(p_fail=.01, p_consume_all=.5, p_changed_by_human=.01, p_change_preference=.01, r_subtask=10.,
                    r_final=100., r_preference=10., reward_independent_preference=False, cost_get=15.,
                    cost_intrinsic=1., cost_hold=2.)
    pick = lambda *x: r.choice(x)
    return dict(p_fail=pick(.01, 0., 1., r.random()), p_consume_all=pick(.5, 0., 1., r.random()),
                p_changed_by_human=pick(.01, 0., .3, r.random()), p_change_preference=pick(.01, 0., .3, r.random()),
                r_subtask=pick(10., 0., 7.5), r_final=pick(100., 31.), r_preference=pick(10., 6.25, 0.),
                reward_independent_preference=r.random() < .5, cost_get=pick(15., 4., 0.),
                cost_intrinsic=pick(1., 0., .5), cost_hold=pick(2., .25, 0.))


def describe(model, proc, s):
    _s = model._int_to_state(int(s))
    names = [n.name for n in model.htm_nodes] + ['clean', 'final']
    return (names[_s.htm], tuple(int(_s.has_preference(i)) for i in range(proc.n_prefs)),
            int(_s.has_body_feature(0)), tuple(int(_s.has_object(i)) for i in range(len(proc.objects))))


def encode(model, proc, d):
    _s = model._int_to_state()
    names = [n.name for n in model.htm_nodes] + ['clean', 'final']
    _s.htm = names.index(d[0])
    for i, b in enumerate(d[1]):
        _s.set_preference(i, b)
    _s.set_body_feature(0, d[2])
    for i, b in enumerate(d[3]):
        _s.set_object(i, b)
    return _s.to_int()


def random_state(case, proc):
    r = case.rng
    step = r.choice(list(proc.steps) + ['clean', 'final'])
    bit = lambda: r.randint(0, 1)
    return (step, tuple(bit() for _ in range(proc.n_prefs)), bit() if r.random() < .2 else 0,
            tuple(bit() for _ in proc.objects))


def observe_step(case, model, proc, a, s, random, what):
    """One monitored simulator call; returns the new state number."""
    d = describe(model, proc, s)
    name = model.actions[a]
    calls = model.n_simulator_calls
    s2, o, r = model.sample_transition(a, s) if random and case.rng.random() < .5 else \
        model.sample_transition(a, s, random=random)
    case.equal(model.n_simulator_calls, calls + 1, 'count of simulator calls')
    case.check(0 <= s2 < model.n_states, 'state {} out of range', s2)
    out = (describe(model, proc, s2), model.observations[o], round(float(r), 9) + 0.)
    exp = proc.outcomes(name, d, random)
    if not any(k[:2] == out[:2] and abs(k[2] - out[2]) < 1e-6 for k in exp):
        case.fail('{}: {} from {} (random={}) produced {}, allowed: {}'.format(
            what, name, d, random, out, sorted(exp, key=lambda k: -exp[k])[:6]))
    case.equal(bool(model.is_final(s2)), out[0][0] == 'final', 'is_final')
    case.event('obs:' + out[1])
    case.event('steps')
    if d[0] != out[0][0]:
        case.event('progress')
    return s2, out


def case_single(case):
    """Every action from many states, with and without randomness."""
    wide = case.rng.random() < .15
    model, proc = random_process(case, wide=wide)
    case.event('wide tasks', int(wide))
    for _ in range(25):
        d = random_state(case, proc)
        s = encode(model, proc, d)
        for a in range(model.n_actions):
            random = case.rng.random() < .5
            observe_step(case, model, proc, a, s, random, 'single step')
            exp = proc.outcomes(model.actions[a], d, False)
            if not random and len(exp) == 1:
                case.event('deterministic')
        case.key(repr(proc.tree), d, sorted(proc.p.items()))
    case.note(tree=proc.tree, params=proc.p, steps=proc.steps)


def case_walk(case):
    """Long random walks, biased towards progress."""
    model, proc = random_process(case, wide=case.rng.random() < .25)
    s = start_of(case, model, proc)
    random = case.rng.random() < .7
    for _ in range(150):
        a = case.rng.randrange(model.n_actions) if case.rng.random() < .6 else case.rng.choice([0, 0, 1, 2])
        s, out = observe_step(case, model, proc, a, s, random, 'walk')
        if out[0][0] == 'final':
            case.event('finished')
            if case.rng.random() < .1:
                s = start_of(case, model, proc)
    case.key('walk', repr(proc.tree), sorted(proc.p.items()))


def case_large(case):
    """States of long tasks with many objects do not fit in a machine word."""
    r = case.rng
    model, proc = random_process(case, large=True, some=False)
    changes = r.choice([0., 0., 1.])
    model.p_changed_by_human = proc.p['p_changed_by_human'] = changes
    s = model.sample_start()
    d = describe(model, proc, s)
    case.check(d[0] in proc.first, 'start in {}, initial steps are {}', d[0], proc.first)
    case.equal(d[2:], (0, (int(changes),) * len(proc.objects)), 'objects at start')
    random = changes == 0. or r.random() < .5
    for i in range(200):
        d = describe(model, proc, s)
        case.equal(encode(model, proc, d), int(s), 'number of {}'.format(d))
        a = r.choice([0, 0, 1, 2, 3] + [r.randrange(model.n_actions)])
        s, out = observe_step(case, model, proc, a, s, random, 'large task')
        proc.cache.clear()
        if out[0][0] == 'final':
            case.event('finished large tasks')
            s = encode(model, proc, random_state(case, proc))
    if model.n_states > 2 ** 63:
        case.event('states over 63 bits')
    case.key('large', len(proc.steps), len(proc.objects), sorted(proc.p.items()))
    case.note(steps=len(proc.steps), objects=len(proc.objects))


def start_of(case, model, proc):
    s = model.sample_start()
    d = describe(model, proc, s)
    case.check(d[0] in proc.first, 'start in {}, initial steps are {}', d[0], proc.first)
    case.check(d[2] == 0, 'start while holding')
    for b, p in zip(d[1], proc.p_preferences):
        case.check(p > 0 if b else p < 1, 'start with preference {} of probability {}', b, p)
    if proc.p['p_changed_by_human'] == 0:
        case.check(not any(d[3]), 'start with objects {}', d[3])
    case.event('starts')
    return s


def case_start(case):
    model, proc = random_process(case, max_objects=2)
    n = 3000
    firsts = set()
    prefs = [collections.Counter() for _ in range(proc.n_prefs)]
    objs = [collections.Counter() for _ in proc.objects]
    joint = collections.Counter()
    for _ in range(n):
        d = describe(model, proc, start_of(case, model, proc))
        firsts.add(d[0])
        for c, b in zip(prefs, d[1]):
            c[b] += 1
        for c, b in zip(objs, d[3]):
            c[b] += 1
        joint[d[1]] += 1
    case.check(firsts == set(proc.first), 'starts in {} only, initial steps are {}', firsts, proc.first)
    for i, c in enumerate(prefs):
        p = proc.p_preferences[i]
        stats.frequencies(c, {0: 1 - p, 1: p}, n, 'preference {} at start'.format(i))
    for i, c in enumerate(objs):
        p = proc.p['p_changed_by_human']
        stats.frequencies(c, {0: 1 - p, 1: p}, n, 'object {} at start'.format(i))
    probs = {}
    import itertools
    for bits in itertools.product([0, 1], repeat=proc.n_prefs):
        q = 1.
        for b, p in zip(bits, proc.p_preferences):
            q *= p if b else 1 - p
        probs[bits] = q
    stats.frequencies(joint, probs, n, 'preferences at start')
    case.event('start-frequencies')
    case.key('start', repr(proc.tree), proc.p_preferences)


def case_frequency(case):
    model, proc = random_process(case, max_objects=3, n_prefs=case.rng.choice([1, 1, 2]))
    n = case.ctx.n(2500, 6000)
    name = case.rng.choice(list(model.actions) + ['wait', 'hold H', 'hold V', 'ask hold'])
    a = model.actions.index(name)
    d = random_state(case, proc)
    s = encode(model, proc, d)
    exp = proc.outcomes(name, d, True)
    counts = collections.Counter()
    for _ in range(n):
        s2, o, r = model.sample_transition(a, s)
        counts[describe(model, proc, s2), model.observations[o], round(float(r), 9) + 0.] += 1
    what = '{} from {}'.format(name, d)
    stats.frequencies(counts, exp, n, what)
    views = [('step', lambda k: k[0][0]), ('observation', lambda k: k[1]), ('reward', lambda k: k[2]),
             ('objects', lambda k: k[0][3]), ('preferences', lambda k: k[0][1]),
             ('changed objects', lambda k: sum(x != y for x, y in zip(k[0][3], d[3]))),
             ('changed preferences', lambda k: sum(x != y for x, y in zip(k[0][1], d[1])))]
    for view, f in views:
        c, p = collections.Counter(), {}
        for k, v in counts.items():
            c[f(k)] += v
        for k, v in exp.items():
            p[f(k)] = p.get(f(k), 0.) + v
        stats.frequencies(c, p, n, what + ': ' + view)
    case.event('frequencies')
    case.key('frequency', repr(proc.tree), name, d, sorted(proc.p.items()))
    case.note(action=name, state=d, outcomes={repr(k): v for k, v in list(exp.items())[:8]})


def case_answers(case):
    """Probabilities close to one (answers, holds, fetches) need many samples to be told from their neighbours."""
    model, proc = random_process(case, max_objects=2, n_prefs=1, max_leaves=3)
    n = case.ctx.n(15000, 40000)
    name = case.rng.choice(['ask hold', 'ask hold', 'hold H', 'hold V', case.rng.choice(list(model.actions))])
    a = model.actions.index(name)
    d = random_state(case, proc)
    if case.rng.random() < .8:
        d = (case.rng.choice(list(proc.steps)),) + d[1:]
    s = encode(model, proc, d)
    exp = proc.outcomes(name, d, True)
    counts, p = collections.Counter(), collections.Counter()
    for _ in range(n):
        s2, o, r = model.sample_transition(a, s)
        counts[model.observations[o], s2 != s] += 1
    for k, v in exp.items():
        p[k[1], k[0] != d] += v
    stats.frequencies(counts, p, n, 'observation and change after {} from {}'.format(name, d))
    case.event('answers', int(name == 'ask hold'))
    case.event('large frequencies')
    case.key('answers', repr(proc.tree), name, d, sorted(proc.p.items()))
    case.note(action=name, state=d)


def case_branches(case):
    """Every step that may come next does, also in tasks with many of them."""
    model, proc = random_process(case, wide=True)
    wait = model.actions.index('wait')
    branching = [x for x in proc.steps if len(proc.succs[x]) > 1]
    for x in case.rng.sample(branching, min(4, len(branching))) + case.rng.sample(list(proc.steps), 1):
        s = encode(model, proc, (x,) + random_state(case, proc)[1:])
        n = 60 * len(proc.succs[x])
        random = case.rng.random() < .5
        c = collections.Counter(describe(model, proc, model.sample_transition(wait, s, random=random)[0])[0]
                                for _ in range(n))
        stats.frequencies(c, proc.succs[x], n, 'steps that follow {}'.format(x))
        case.event('branches', len(proc.succs[x]))
    n = 60 * len(proc.first)
    c = collections.Counter(describe(model, proc, model.sample_start())[0] for _ in range(n))
    case.equal(sorted(c), sorted(proc.first), 'steps in which the task starts')
    case.key('branches', repr(proc.tree))
    case.note(branching=len(branching), first=len(proc.first))


def case_episode(case):
    """The direct way to the end: fetch what is needed, hold as preferred, clean up, wait."""
    model, proc = random_process(case)
    model.p_fail = proc.p['p_fail'] = min(proc.p['p_fail'], .5)
    s = start_of(case, model, proc)
    seen = []
    proc.cache.clear()
    for _ in range(4000):
        d = describe(model, proc, s)
        if not seen or seen[-1] != d[0]:
            seen.append(d[0])
        if d[0] == 'final':
            break
        options = ['wait']
        if d[0] in proc.steps:
            options += ['hold H', 'hold V', 'ask hold']
            options += ['bring ' + o for _, o in proc.steps[d[0]][1]]
        else:
            options += ['clear ' + o for o in proc.objects if o in proc.clearable]
        s, out = observe_step(case, model, proc, model.actions.index(case.rng.choice(options)), s, True, 'episode')
    else:
        case.fail('the task was not completed in 4000 steps: {}'.format(seen))
    case.check(seen[0] in proc.first and seen[-2:] == ['clean', 'final'], 'steps of an episode: {}', seen)
    for x, y in zip(seen, seen[1:-1]):
        case.check(y in proc.succs[x], '{} followed by {}', x, y)
    case.event('episodes')
    case.key('episode', repr(proc.tree), sorted(proc.p.items()))
    case.note(steps=seen)


def run(ctx):
    ctx.cases('single', ctx.n(360, 4000), case_single)
    ctx.cases('branches', ctx.n(60, 800), case_branches)
    ctx.require('branches', 100)
    ctx.cases('walk', ctx.n(240, 4000), case_walk)
    ctx.cases('large', ctx.n(80, 1000), case_large)
    ctx.cases('episode', ctx.n(240, 4000), case_episode)
    ctx.cases('start', ctx.n(72, 400), case_start)
    ctx.cases('answers', ctx.n(96, 800), case_answers)
    ctx.cases('frequency', ctx.n(480, 4000), case_frequency)
    for k in ('obs:none', 'obs:fail', 'obs:not-found', 'obs:yes', 'obs:no', 'progress', 'deterministic', 'finished',
              'starts'):
        ctx.require(k, 50)
    ctx.require('answers', 12)
    ctx.require('states over 63 bits', 12)
    for k in ('frequencies', 'finished large tasks', 'start-frequencies', 'episodes'):
        ctx.require(k, 20)
