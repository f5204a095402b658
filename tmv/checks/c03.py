"""C03: the simulator samples from the model it is given."""
import numpy as np

from .. import gen, stats

PROPERTY = 'C03'
RULE = ('random models; every recorded simulated step is checked against the support and reward tables, and the '
        'frequencies of (next state, observation), start states and belief samples against the model with a Chernoff '
        'test (false alarm < 1e-13). Non-trivial: distinct (model, state, action) sampled.')


def case_steps(case):
    p = gen.pomdp_parts(case, max_s=5)
    cost = case.rng.random() < .3
    m = gen.make_pomdp(p, values='cost' if cost else 'reward')
    T, O = p['T'], p['O']
    R = -p['R'] if cost else p['R']
    a_n, s_n, o_n = O.shape
    n = case.ctx.n(1500, 6000)
    pairs = [(case.rng.randrange(a_n), case.rng.randrange(s_n)) for _ in range(2)]
    for a, s in pairs:
        counts = {}
        for _ in range(n):
            s2, o, r = m.sample_transition(a, s)
            k = (int(s2), int(o))
            counts[k] = counts.get(k, 0) + 1
            if r != R[a, s, k[0], k[1]]:
                case.fail('reward {} for (a={}, s={}, s2={}, o={}), the model says {}'.format(
                    r, a, s, k[0], k[1], R[a, s, k[0], k[1]]))
        probs = {(i, j): T[a, s, i] * O[a, i, j] for i in range(s_n) for j in range(o_n)
                 if T[a, s, i] * O[a, i, j] > 0}
        stats.frequencies(counts, probs, n, 'simulated (next state, observation) for a={} s={}'.format(a, s))
        case.event('transitions', n)
        case.event('outcomes-seen', len(counts))
        case.key(T.tobytes(), O.tobytes(), a, s)
    case.note(shape=O.shape, pairs=pairs)


def case_walk(case):
    """One long trajectory: frequencies must not depend on the past."""
    p = gen.pomdp_parts(case, max_s=4, style=case.rng.choice(['dense', 'uniform', 'sparse']))
    m = gen.make_pomdp(p)
    T, O, R = p['T'], p['O'], p['R']
    a_n, s_n, o_n = O.shape
    keep = {k: getattr(m, k).copy() for k in ('T', 'O', 'R', 'start')}
    seed = case.rng.randrange(2 ** 32)

    def walk(n):
        np.random.seed(seed)
        out = []
        s = int(m.sample_start())
        case.check(p['start'][s] > 0, 'start state {} has probability zero', s)
        for i in range(n):
            a = i % a_n
            s2, o, r = m.sample_transition(a, s)
            out.append((a, s, int(s2), int(o), float(r)))
            s = int(s2)
        return out

    n = case.ctx.n(1500, 6000)
    w = walk(n)
    by = {}
    for a, s, s2, o, r in w:
        case.check(T[a, s, s2] > 0, 'impossible transition {} -> {} for action {}', s, s2, a)
        case.check(O[a, s2, o] > 0, 'impossible observation {} in {} for action {}', o, s2, a)
        case.check(r == R[a, s, s2, o], 'reward {} instead of {}', r, R[a, s, s2, o])
        c = by.setdefault((a, s), {})
        c[(s2, o)] = c.get((s2, o), 0) + 1
    for (a, s), counts in by.items():
        probs = {(i, j): T[a, s, i] * O[a, i, j] for i in range(s_n) for j in range(o_n)
                 if T[a, s, i] * O[a, i, j] > 0}
        stats.frequencies(counts, probs, sum(counts.values()), 'steps of a trajectory for a={} s={}'.format(a, s))
    case.equal(walk(60), w[:60], 'trajectory when reseeding')
    for k, v in keep.items():
        case.check((getattr(m, k) == v).all(), 'simulating modified {} of the model', k)
    case.event('transitions', n)
    case.event('replayed')
    case.key('walk', T.tobytes(), seed)
    case.note(shape=O.shape, trajectory=w[:5])


def case_edited(case):
    """The simulator follows the model as it is now: simulate, change the probabilities, simulate again."""
    p = gen.pomdp_parts(case, max_s=4)
    m = gen.make_pomdp(p)
    a_n, s_n, o_n = p['O'].shape
    n = case.ctx.n(1000, 4000)
    a, s = case.rng.randrange(a_n), case.rng.randrange(s_n)
    for step in range(3):
        T, O, R, start = m.T.copy(), m.O.copy(), m.R.copy(), m.start.copy()
        counts, starts = {}, {}
        for _ in range(n):
            s2, o, r = m.sample_transition(a, s)
            k = (int(s2), int(o))
            counts[k] = counts.get(k, 0) + 1
            case.check(r == R[a, s, k[0], k[1]], 'reward {} after {} changes, the model says {}', r, step,
                       R[a, s, k[0], k[1]])
            k = int(m.sample_start())
            starts[k] = starts.get(k, 0) + 1
        probs = {(i, j): T[a, s, i] * O[a, i, j] for i in range(s_n) for j in range(o_n)
                 if T[a, s, i] * O[a, i, j] > 0}
        stats.frequencies(counts, probs, n, 'simulated (next state, observation) after {} changes'.format(step))
        stats.frequencies(starts, {i: x for i, x in enumerate(start) if x > 0}, n,
                          'start states after {} changes'.format(step))
        how = case.rng.choice(['randomize', 'in place', 'arrays'])
        if how == 'randomize':
            m.randomize(case.rng.choice([1e-3, .2, 1.]))
        elif how == 'in place':
            m.T[...] = gen.rows(case.np, m.T.shape)
            m.O[a] = gen.rows(case.np, m.O[a].shape)
            m.R[a] = case.np.randint(-9, 10, size=m.R[a].shape)
            m.start[...] = gen.prob_row(case.np, s_n, 'dense')
        else:
            m.T, m.O = gen.rows(case.np, m.T.shape), gen.rows(case.np, m.O.shape)
            m.start = gen.prob_row(case.np, s_n, 'sparse')
        case.event('changes')
    case.event('transitions', 3 * n)
    case.key('edited', p['T'].tobytes())
    case.note(shape=p['O'].shape)


def case_starts(case):
    from task_models.lib.belief import ArrayBelief
    p = gen.pomdp_parts(case)
    m = gen.make_pomdp(p)
    n = case.ctx.n(3000, 10000)
    for what, f in (('start states', m.sample_start), ('samples of a belief', ArrayBelief(m.start).sample)):
        counts = {}
        for _ in range(n):
            s = int(f())
            counts[s] = counts.get(s, 0) + 1
        stats.frequencies(counts, {i: x for i, x in enumerate(p['start']) if x > 0}, n, what)
    case.event('starts', 2 * n)
    case.key('start', p['start'].tobytes())
    case.note(start=p['start'].tolist())


def run(ctx):
    ctx.cases('steps', ctx.n(200, 1500), case_steps)
    ctx.cases('walk', ctx.n(120, 1000), case_walk)
    ctx.cases('edited', ctx.n(120, 1000), case_edited)
    ctx.cases('starts', ctx.n(100, 1000), case_starts)
    ctx.require('transitions', 50000)
    ctx.require('starts', 20000)
    ctx.require('outcomes-seen', 100)
    ctx.require('changes', 60)
