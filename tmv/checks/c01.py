"""C01: a POMDP object is always a well-formed stochastic model."""
import numpy as np

from .. import gen

PROPERTY = 'C01'
RULE = ('random model descriptions (1-6 states, 1-4 actions/observations; dense, sparse, deterministic rows), '
        'each then corrupted at one random place (or none, or within the numerical tolerance) and given to the '
        'constructor; a validity oracle over the raw numbers decides accept/reject. Non-trivial: distinct '
        '(shape, corruption, place).')


def oracle_valid(p):
    """Independent statement of validity; returns (valid, margin_ok)."""
    T, O, R, start = p['T'], p['O'], p['R'], p['start']
    if O.ndim != 3:
        return False
    a, s, o = O.shape
    for k, n in (('states', s), ('actions', a), ('observations', o)):
        if p.get(k) is not None and len(p[k]) != n:
            return False
        if p.get(k) is not None and len(set(p[k])) != n:
            return False
    if T.shape != (a, s, s) or R.shape != (a, s, s, o) or start.shape != (s,):
        return False
    for x in (T, O, start):
        for row in x.reshape(-1, x.shape[-1]):
            if any(v < 0 for v in row) or abs(sum(row) - 1) > 1e-6 or any(v != v for v in row):
                return False
    return 0 <= p['discount'] <= 1 and p.get('values', 'reward') in ('reward', 'cost')


CORRUPT = ['none', 'T-row', 'O-row', 'start', 'T-neg', 'O-neg', 'start-neg', 'T-shape', 'R-shape', 'start-shape',
           'O-shape', 'dup-state', 'dup-action', 'dup-obs', 'n-states', 'n-actions', 'n-obs', 'discount-hi',
           'discount-lo', 'values', 'T-nan', 'O-nan', 'rounding', 'swap-so', 'big-sum', 'edge-discount', 'start-nan',
           'discount-nan', 'T-inf', 'all-zero']


def corrupt(case, p, kind):
    r = case.np
    for k in ('T', 'O', 'R', 'start'):
        p[k] = p[k].copy()
    a, s, o = p['O'].shape
    where = ()

    def bump(x, d):
        i = tuple(r.randint(n) for n in x.shape)
        x[i] += d
        return i

    if kind in ('T-row', 'O-row', 'start'):
        where = bump(p[kind.split('-')[0]], [.1, -.05, 1., 1e-3, -1e-3, 5e-5][r.randint(6)])
    elif kind in ('T-neg', 'O-neg', 'start-neg'):
        x = p[kind.split('-')[0]]
        if x.shape[-1] < 2:
            return None
        row = tuple(r.randint(n) for n in x.shape[:-1])
        i, j = r.choice(x.shape[-1], 2, replace=False)
        d = x[row + (i,)] + [.5, .01, 1., 1e-5, 1e-8, 1e-11][r.randint(6)]
        x[row + (i,)] -= d
        x[row + (j,)] += d
        where = row
    elif kind == 'T-shape':
        p['T'] = gen.rows(r, [(a, s, s + 1), (a + 1, s, s), (a, s + 1, s), (a, s + 1, s + 1)][r.randint(4)], 'uniform')
    elif kind == 'O-shape':
        p['O'] = gen.rows(r, [(a, s + 1, o), (a + 1, s, o), (a, s, o + 1)][r.randint(3)], 'uniform')
    elif kind == 'R-shape':
        p['R'] = np.zeros([(a, s, s), (a, s, s, o + 1), (a, s + 1, s, o), (a, s, s + 1, o), (a + 1, s, s, o),
                           (1, 1, 1, 1)][r.randint(6)])
    elif kind == 'start-shape':
        p['start'] = np.ones(s + 1) / (s + 1) if r.rand() < .7 else np.ones((1, s)) / s
    elif kind.startswith('dup-') or kind.startswith('n-'):
        key = {'state': 'states', 'action': 'actions', 'obs': 'observations', 'states': 'states',
               'actions': 'actions'}[kind.split('-')[1]]
        if p.get(key) is None:
            p[key] = ['x{}'.format(i) for i in range({'states': s, 'actions': a, 'observations': o}[key])]
        p[key] = list(p[key])
        if kind.startswith('dup-'):
            if len(p[key]) < 2:
                return None
            i, j = r.choice(len(p[key]), 2, replace=False)
            p[key][i] = p[key][j]
            where = (int(i), int(j))
        elif r.rand() < .5:
            p[key].append('extra')
        else:
            p[key].pop()
    elif kind == 'discount-hi':
        p['discount'] = [1.0001, 2, 1.5][r.randint(3)]
    elif kind == 'discount-lo':
        p['discount'] = [-.0001, -1, -.5][r.randint(3)]
    elif kind == 'edge-discount':
        p['discount'] = [0, 1, 0., 1., 1 - 1e-12][r.randint(5)]
    elif kind == 'values':
        p['values'] = ['rewards', 'costs', '', None, 'Cost'][r.randint(5)]
    elif kind == 'discount-nan':
        p['discount'] = [float('nan'), float('inf'), -float('inf'), np.float64('nan')][r.randint(4)]
    elif kind in ('T-nan', 'O-nan', 'start-nan'):
        where = bump(p[kind.split('-')[0]], np.nan)
    elif kind == 'T-inf':
        where = bump(p[['T', 'O', 'start'][r.randint(3)]], [np.inf, -np.inf][r.randint(2)])
    elif kind == 'all-zero':
        x = p[['T', 'O', 'start'][r.randint(3)]]
        where = tuple(r.randint(n) for n in x.shape[:-1])
        x[where] = 0.
        where += ('zero',)
    elif kind == 'rounding':
        for x in (p['T'], p['O'], p['start']):
            x *= 1 + (r.rand() - .5) * 1e-12
    elif kind == 'swap-so':
        if s == o:
            return None
        p['O'] = np.swapaxes(p['O'], 1, 2)
    elif kind == 'big-sum':
        # errors that compensate between rows must still be seen
        if s < 2:
            return None
        act = r.randint(a)
        p['T'][act, 0] *= 1.5
        p['T'][act, 1] *= .5
        where = (int(act),)
    return where


def case_build(case):
    from task_models.lib.pomdp import POMDP
    size = {}
    if case.rng.random() < .03:         # large models
        size = {'s': case.rng.randint(15, 60), 'a': case.rng.randint(1, 3), 'o': case.rng.randint(1, 12)}
    p = gen.pomdp_parts(case, **size)
    if size:
        case.event('large')
    kind = CORRUPT[case.index % len(CORRUPT)]
    if case.rng.random() < .4:
        p['values'] = case.rng.choice(['reward', 'cost'])
    where = corrupt(case, p, kind)
    if where is None:
        kind, where = 'none', ()
    valid = oracle_valid(p)
    case.note(shape=p['O'].shape, corruption=kind, where=list(where), discount=p['discount'], expected_valid=valid)
    case.key(p['O'].shape, kind, where, p.get('values'))
    given = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
    build = lambda: gen.make_pomdp(p)
    if not valid:
        case.raises(ValueError, build, 'building an ill-formed model ({})'.format(kind))
        case.event('rejected')
        return
    try:
        m = build()
    except Exception as e:
        case.fail('a well-formed model ({}) is refused: {!r}'.format(kind, e))
    case.event('accepted')
    a, s, o = p['O'].shape
    for key, n in (('states', s), ('actions', a), ('observations', o)):
        exp = list(range(n)) if p.get(key) is None else list(p[key])
        case.equal(list(getattr(m, key)), exp, key)
    case.equal((m.n_states, m.n_actions, m.n_observations), (s, a, o), 'sizes')
    case.equal(m.discount, p['discount'], 'discount')
    case.close(m.T, given['T'], 'T', 0)
    case.close(m.O, given['O'], 'O', 0)
    case.close(m.start, given['start'], 'start', 0)
    case.close(m.R, -given['R'] if p.get('values') == 'cost' else given['R'], 'R', 0)


def case_names(case):
    """Iterables other than lists are accepted as names, and are not consumed or aliased."""
    p = gen.pomdp_parts(case, named=True)
    kind = case.rng.choice(['tuple', 'gen', 'ints', 'list', 'alike', 'alike'])
    if kind == 'alike':     # different names, however similar
        for key in ('states', 'actions', 'observations'):
            if case.rng.random() < .7:
                pool = [1, '1', (1,), '(1,)', 'a', 'A', ' a', 'a ', u'\xe9', 'e', '', None, 'None', ('a', 1), ('a', '1'), 1.5,
                        '1.5', frozenset(['a']), -1, '01', 'a' * 200, 'a' * 200 + 'b']
                p[key] = case.rng.sample(pool, len(p[key]))
    exp = list(p['states'])
    if kind == 'tuple':
        p['states'] = tuple(exp)
    elif kind == 'gen':
        p['states'] = (x for x in exp)
    elif kind == 'ints':
        exp = [10 * (i + 1) for i in range(len(exp))]
        p['states'] = list(exp)
    m = gen.make_pomdp(p)
    case.equal(list(m.states), exp, 'state names from ' + kind)
    case.equal([list(m.actions), list(m.observations)], [list(p['actions']), list(p['observations'])], 'names')
    case.equal(m.n_states, len(exp), 'number of states')
    if kind == 'list':
        p['states'].append('other')
        case.equal(m.n_states, len(exp), 'number of states after the caller edits its own list')
    case.equal(list(m.states), exp, 'state names, read again')
    case.event('names')
    case.key('names', kind, len(exp))


def case_randomize(case):
    p = gen.pomdp_parts(case)
    if case.rng.random() < .2:          # probabilities given as integers
        s, a, o = p['T'].shape[1], p['T'].shape[0], p['O'].shape[2]
        p['T'] = np.stack([np.eye(s, dtype=int)[case.np.permutation(s)] for _ in range(a)])
        p['O'] = np.eye(o, dtype=int)[case.np.randint(o, size=(a, s))]
        case.event('integers')
    p['T'] = p['T'].copy()
    mine = {k: p[k].copy() for k in ('T', 'O', 'R', 'start')}
    if case.rng.random() < .5:          # two models built from the same arrays
        from task_models.lib.pomdp import POMDP
        args = (p['T'], p['O'], p['R'], p['start'], p['discount'])
        m, other = POMDP(*args), POMDP(*args)
        case.event('shared arrays')
    else:
        m, other = gen.make_pomdp(p), None
    eps = case.rng.choice([None, 1e-3, .1, 1e-6, 1.])
    T, O = m.T.copy(), m.O.copy()
    R, start = m.R.copy(), m.start.copy()
    times = case.rng.randint(1, 3)
    for _ in range(times):
        m.randomize() if eps is None else m.randomize(eps)
    e = 1e-3 if eps is None else eps
    for name, got, before in (('T', m.T, T), ('O', m.O, O)):
        exp = before
        for _ in range(times):
            exp = (exp + e) / (1 + exp.shape[-1] * e)
        case.close(got, exp, name + ' after randomisation', 1e-9)
        case.close(got.sum(-1), np.ones(got.shape[:-1]), name + ' row sums after randomisation', 1e-9)
        case.check((got > 0).all(), '{} has an impossible outcome after randomisation', name)
    case.close(m.R, R, 'R after randomisation', 0)
    case.close(m.start, start, 'start after randomisation', 0)
    for k in mine:
        case.check(np.array_equal(p[k], mine[k]), '{} of the caller after randomisation', k)
        if other is not None:
            case.check(np.array_equal(getattr(other, k), mine[k]), '{} of another model after randomisation', k)
    case.event('randomized')
    case.note(shape=m.O.shape, p_unexpected=e, times=times)
    case.key('rand', m.O.shape, e, times)


def run(ctx):
    n = ctx.n(15000, 300000)
    ctx.cases('build', n, case_build)
    ctx.cases('names', n // 5, case_names)
    ctx.cases('randomize', n // 5, case_randomize)
    for k in ('accepted', 'rejected', 'randomized', 'names', 'large', 'integers', 'shared arrays'):
        ctx.require(k, 20)
