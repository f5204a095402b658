"""C02: belief tracking is exact Bayesian filtering."""
import numpy as np

from .. import gen

PROPERTY = 'C02'
RULE = ('random models (dense, sparse, deterministic, near-impossible rows) and beliefs; every action and observation '
        'is tried and compared with an independent Bayes filter in plain floats, and filters are run along random '
        'histories. Non-trivial: distinct (model, belief) pairs and histories with at least one update.')


def random_belief(case, n):
    r = case.np
    k = r.randint(5)
    if k == 0:
        b = np.zeros(n)
        b[r.randint(n)] = 1.
    elif k == 1:
        b = gen.prob_row(r, n, 'sparse')
    elif k == 2:
        b = np.ones(n) / n
    elif k == 3:
        b = gen.prob_row(r, n, 'tiny')
    else:
        b = r.dirichlet(np.ones(n))
    return b


def model(case, extreme=None):
    p = gen.pomdp_parts(case)
    if extreme is None:
        extreme = case.rng.random() < .2
    if extreme:                                # near-impossible but possible outcomes
        for k in ('T', 'O'):
            x = p[k]
            if x.shape[-1] > 1:
                x *= 1 - 1e-30
                i = tuple(case.np.randint(n) for n in x.shape)
                if x[i] == 0:
                    x[i] = 10. ** -float(case.np.randint(12, 31))
    return p, gen.make_pomdp(p)


def case_update(case):
    from task_models.lib.pomdp import Impossible
    from task_models.lib.belief import ArrayBelief
    p, m = model(case)
    a_n, s_n, o_n = p['O'].shape
    b = random_belief(case, s_n)
    if case.rng.random() < .2:      # as it is now, whatever it was in a previous update
        from task_models.lib.pomdp import Impossible
        for a in range(a_n):
            try:
                m.belief_update(a, case.rng.randrange(o_n), b.copy())
            except Impossible:
                pass
        p = gen.edit_model(case, m, p)
    before = {k: getattr(m, k).copy() for k in ('T', 'O', 'R', 'start')}
    case.note(shape=[a_n, s_n, o_n], belief=b.tolist())
    case.key(p['T'].tobytes(), b.tobytes())
    ab = ArrayBelief(b.copy())
    for a in range(a_n):
        for o in range(o_n):
            exp, z = gen.bayes(p['T'], p['O'], a, o, b)
            # the caller may hold the belief in a larger array, or read only
            form = case.rng.randrange(4)
            if form == 0:
                b_in = np.array([b, b])[case.rng.randrange(2)]
            elif form == 1:
                b_in = np.array([b, b]).T.copy()[:, case.rng.randrange(2)]
            else:
                b_in = b.copy()
                b_in.flags.writeable = form == 2
            if exp is None:
                case.raises(Impossible, lambda: m.belief_update(a, o, b_in),
                            'update for impossible observation {} after action {}'.format(o, a))
                case.raises(Impossible, lambda: ab.successor(m, a, o), 'successor for an impossible observation')
                case.event('impossible')
            elif z > 1e-250:
                got = m.belief_update(a, o, b_in)
                case.close(got, exp, 'posterior for action {} observation {}'.format(a, o), 1e-9)
                case.close(got.sum(), 1., 'sum of the posterior', 1e-9)
                case.check((np.asarray(got) >= 0).all(), 'negative probability in the posterior')
                suc = ab.successor(m, a, o)
                case.check(isinstance(suc, ArrayBelief), 'successor of an exact belief is a {}', type(suc).__name__)
                case.close(suc.array, exp, 'successor belief', 1e-9)
                case.close(suc.to_list(), exp, 'successor belief as a list', 1e-9)
                got[...] = -1.      # the result belongs to the caller
                case.event('posterior')
            case.check((b_in == b).all(), 'the prior belief was modified')
            case.check((ab.array == b).all(), 'the prior belief object was modified')
    for k, v in before.items():
        case.check((getattr(m, k) == v).all(), 'belief updates modified {} of the model', k)


def case_history(case):
    from task_models.lib.pomdp import Impossible
    p, m = model(case, extreme=False)
    a_n, s_n, o_n = p['O'].shape
    b = np.array(m.start, dtype=float)
    mine = [float(x) for x in p['start']]
    path = []
    for t in range(case.ctx.n(25, 80)):
        a = case.rng.randrange(a_n)
        o = case.rng.randrange(o_n)
        exp, z = gen.bayes(p['T'], p['O'], a, o, mine)
        if exp is None:
            case.raises(Impossible, lambda: m.belief_update(a, o, b), 'impossible observation in a history')
            case.event('impossible')
            continue
        if z < 1e-200:
            continue
        b = m.belief_update(a, o, b)
        case.close(b, exp, 'belief after {} updates'.format(len(path) + 1), 1e-6)
        mine = exp
        # Smoothed by replaying: the history determines the belief, whatever was asked in between
        path.append((a, o))
        case.event('history-step')
    b2 = np.array(p['start'], dtype=float)
    for a, o in path:
        b2 = m.belief_update(a, o, b2)
    case.close(b2, b, 'belief when the history is replayed', 1e-12)
    case.note(history=path[:20], belief=b.tolist())
    if path:
        case.key('h', p['T'].tobytes(), path)


def case_objects(case):
    from task_models.lib.belief import ArrayBelief
    n = case.rng.randint(1, 6)
    b = gen.prob_row(case.np, n, case.rng.choice(['det', 'grid', 'dense', 'sparse', 'uniform']))
    variants = [ArrayBelief(b), ArrayBelief(b.copy()), ArrayBelief(list(b)), ArrayBelief(tuple(b.tolist())),
                ArrayBelief(np.where(b == 0, -0., b))]
    if (b == np.round(b)).all():
        variants.append(ArrayBelief(b.astype(int)))
    for x in variants:
        for y in variants:
            case.check(x == y, 'beliefs of same content differ: {} and {}', x.array, y.array)
            case.check(not (x != y), 'beliefs of same content are both equal and different')
            case.equal(hash(x), hash(y), 'hash of equal beliefs {!r} {!r}'.format(x.array, y.array))
    case.equal(len(set(variants)), 1, 'size of a set of equal beliefs')
    case.event('equal-pairs', len(variants) ** 2)
    other = b.copy()
    if n > 1:
        i = int(np.argmax(other))
        d = case.rng.choice([1e-9, 1e-3, .1])
        j = (i + 1) % n
        other[i] -= d
        other[j] += d
        if other[i] >= 0:
            o = ArrayBelief(other)
            for x in variants:
                case.check(not (x == o) and not (o == x), 'different beliefs are equal')
    longer = ArrayBelief(np.concatenate([b, [0.]]))
    case.check(not (variants[0] == longer), 'beliefs over different numbers of states are equal')
    for x in (None, 3, b.tolist(), 'x'):
        case.check(not (variants[0] == x), 'a belief equals {!r}', x)
    for bad in (b * .5, b + .1, np.concatenate([b, [.2]])):
        case.raises(ValueError, lambda: ArrayBelief(bad), 'building an exact belief that is not a distribution')
    for _ in range(20):
        s = variants[0].sample()
        case.check(b[s] > 0, 'sampled state {} has probability zero', s)
    case.event('objects')
    case.key('obj', b.tobytes())
    case.note(belief=b.tolist())


def run(ctx):
    ctx.cases('update', ctx.n(6400, 40000), case_update)
    ctx.cases('history', ctx.n(3200, 20000), case_history)
    ctx.cases('objects', ctx.n(2400, 10000), case_objects)
    for k in ('impossible', 'posterior', 'history-step', 'objects'):
        ctx.require(k, 50)
