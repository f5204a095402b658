"""C16: particle beliefs are fixed-size samples of the posterior."""
import collections
import math

import numpy as np

from .. import gen, pomcpref, stats
from . import c11

PROPERTY = 'C16'
RULE = ('random explicit and supportive models, numbers of particles, actions and observations (likely, rare, '
        'impossible); the samples drawn by every update are recorded and compared with the particles kept, supports '
        'with exact reachability, frequencies with the Bayes posterior of the prior particles (Chernoff bounds). '
        'Non-trivial: distinct (model, action, observation, particles).')
ASSUMPTIONS = ['"a bounded number of samples" is read as at most 1000 per particle (the code draws at most 100)']


def run(ctx):
    ctx.cases('populate', ctx.n(600, 6000), populate, cpu=20)
    ctx.cases('update', ctx.n(1000, 12000), update, cpu=20)
    ctx.cases('posterior', ctx.n(120, 1500), posterior, cpu=30)
    ctx.cases('rare', ctx.n(120, 1500), rare, cpu=30)
    ctx.cases('runner', ctx.n(120, 1500), runner, cpu=30)
    ctx.cases('supportive', ctx.n(80, 800), supportive, cpu=40)
    ctx.require('updates', 300)
    ctx.require('particles duplicated', 20)
    ctx.require('failed updates', 20)
    ctx.require('posteriors tested', 20)
    ctx.require('initial beliefs of planners', 20)


class Counted:
    """Model wrapper recording the samples drawn."""

    def __init__(self, model):
        self.model = model
        self.draws = []

    def __getattr__(self, name):
        return getattr(self.model, name)

    def sample_transition(self, a, s):
        r = self.model.sample_transition(a, s)
        self.draws.append((int(a), int(s), int(r[0]), int(r[1])))
        return r


def counts_of(case, belief, n):
    """Number of particles per state, from the distribution alone."""
    a = np.asarray(belief.array, dtype=float)
    case.close(a.sum(), 1., 'sum of the distribution')
    c = a * n
    k = np.rint(c)
    case.check(bool((abs(c - k) < 1e-6 * n).all()) and int(k.sum()) == n,
               'distribution {} is not that of {} particles', a, n)
    return {i: int(x) for i, x in enumerate(k) if x}


def populate(case):
    from task_models.lib.belief import ParticleBelief
    r = case.rng
    n_states, n = r.randint(1, 8), r.choice([1, 2, 7, 50, 200, 1000])
    in_order = r.random() < .5      # then samples are not exchangeable
    drawn = []

    def sampler():
        drawn.append(len(drawn) * n_states // n % n_states if in_order else r.randrange(n_states))
        return drawn[-1]

    b = ParticleBelief(sampler, n_states, n_particles=n)
    case.equal(len(drawn), n, 'number of samples drawn')
    case.equal(b.n_particles, n, 'number of particles')
    case.equal(len(b.array), n_states, 'size of the distribution')
    c = collections.Counter(drawn)
    case.equal(counts_of(case, b, n), dict(c), 'particles per state')
    case.close(b.to_list(), [c[i] / n for i in range(n_states)], 'distribution')
    m = 300
    got = collections.Counter(int(b.sample()) for _ in range(m))
    stats.frequencies(got, {s: k / n for s, k in c.items()}, m, 'states sampled from the particles')
    case.equal(counts_of(case, b, n), dict(c), 'particles per state after sampling')
    if n_states > 1:
        d = ParticleBelief(sampler, n_states)
        case.equal(sum(counts_of(case, d, 100).values()), 100, 'default number of particles')
    case.event('populations')
    case.key(n, tuple(drawn[:20]))
    case.note(n_particles=n, n_states=n_states)


def observe_update(case, belief, model, a, o, n):
    """Runs one update; returns (new belief or None, hits)."""
    from task_models.lib.belief import MaxSamplesReached
    m = Counted(model)
    before = counts_of(case, belief, n)
    try:
        new = belief.successor(m, a, o)
    except MaxSamplesReached as e:
        new = None
        case.check(str(e) != '', 'the error has no message')
        case.equal((e.action, e.observation), (a, o), 'action and observation of the error')
    case.event('samples drawn', len(m.draws))
    case.equal(counts_of(case, belief, n), before, 'previous belief')
    case.check(len(m.draws) <= 1000 * n, '{} samples drawn for {} particles', len(m.draws), n)
    case.check(all(d[0] == a for d in m.draws), 'another action was simulated')
    case.check(all(d[1] in before for d in m.draws), 'a sample starts from a state that is no particle')
    hits = [d[2] for d in m.draws if d[3] == o]
    if new is None:
        case.check(not hits, 'the update failed although {} of {} samples had the observation', len(hits), len(m.draws))
        case.check(len(m.draws) >= n, 'the update failed after {} samples for {} particles', len(m.draws), n)
        case.event('failed updates')
        return None, hits
    case.check(hits, 'the update succeeded although no sample had the observation')
    got = counts_of(case, new, n)
    case.equal(new.n_particles, n, 'number of particles')
    found = collections.Counter(hits)
    case.check(set(got) <= set(found), 'particles in states {} but only {} were sampled with this observation',
               sorted(got), sorted(found))
    if len(hits) <= n:
        case.check(all(got.get(s, 0) >= k for s, k in found.items()), 'particles found were dropped: found {}, kept {}',
                   dict(found), got)
    else:
        case.check(all(got[s] <= found[s] for s in got), 'particles {} from samples {}', got, dict(found))
    case.event('updates')
    if len(hits) < n:
        case.event('particles duplicated', n - len(hits))
    return new, hits


def explicit(case, **kw):
    parts, model = pomcpref.small_model(case, max_o=4, **kw)
    return parts, model


def update(case):
    from task_models.lib.belief import ParticleBelief
    r = case.rng
    parts, model = explicit(case, style=r.choice([None, 'det', 'sparse', 'grid', 'tiny']))
    n = r.choice([1, 2, 5, 20])
    b = ParticleBelief(model.sample_start, model.n_states, n_particles=n)
    reach = {i for i, p in enumerate(parts['start']) if p > 0}
    case.check(set(counts_of(case, b, n)) <= reach, 'particles at impossible starts')
    hist = []
    for _ in range(r.randint(1, 4)):
        a = r.randrange(model.n_actions)
        o = r.randrange(model.n_observations)
        new, hits = observe_update(case, b, model, a, o, n)
        if new is None:
            continue
        hist += [a, o]
        reach = {t for s in reach for t in range(model.n_states)
                 if parts['T'][a][s][t] > 0 and parts['O'][a][t][o] > 0}
        case.check(set(counts_of(case, new, n)) <= reach, 'particles in states {} but only {} are possible after {}',
                   sorted(counts_of(case, new, n)), sorted(reach), hist)
        b = new
    case.key(parts['T'].tobytes(), n, tuple(hist))
    case.note(shape=parts['R'].shape, n_particles=n, history=hist)


def posterior(case):
    """Many particles: their frequencies are those of the posterior given the previous particles."""
    from task_models.lib.belief import ParticleBelief
    r = case.rng
    parts, model = explicit(case, style=r.choice(['dense', 'uniform', 'sparse', None]))
    n = 300
    if r.random() < .5:
        b = ParticleBelief(model.sample_start, model.n_states, n_particles=n)
    else:  # as planners build it
        from task_models.lib.pomcp import POMCPPolicyRunner
        b = POMCPPolicyRunner(model, iterations=5, belief='particle', belief_params={'n_particles': n},
                              logger=pomcpref.quiet).belief
        case.event('initial beliefs of planners')
    stats.frequencies(counts_of(case, b, n), {i: float(p) for i, p in enumerate(parts['start'])}, n,
                      'states of the initial particles')
    hist = []
    for _ in range(2):
        a = r.randrange(model.n_actions)
        prior = np.asarray(b.array)
        post = [gen.bayes(parts['T'], parts['O'], a, o, prior) for o in range(model.n_observations)]
        o = max(range(len(post)), key=lambda i: post[i][1]) if r.random() < .6 else r.randrange(len(post))
        if post[o][1] < .05:
            continue
        new, hits = observe_update(case, b, model, a, o, n)
        case.check(new is not None, 'update failed although the observation has probability {}', post[o][1])
        if len(hits) >= n:
            stats.frequencies(counts_of(case, new, n), {i: p for i, p in enumerate(post[o][0])}, n,
                              'states of the particles after {}'.format(hist + [a, o]))
            case.event('posteriors tested')
        hist += [a, o]
        b = new
    case.key(parts['T'].tobytes(), tuple(hist))
    case.note(shape=parts['R'].shape, history=hist)


def rare(case):
    """An observation so rare that few particles are found: those found are all reused."""
    from task_models.lib.pomdp import POMDP
    from task_models.lib.belief import ParticleBelief
    r = case.rng
    s = r.randint(2, 6)
    p = r.choice([1e-3, 3e-3, 1e-4])
    # often unequal: how many times each state was found counts
    T = np.full((1, s, s), 1. / s) if r.random() < .3 else np.tile(case.np.dirichlet(np.full(s, .6)), (1, s, 1))
    O = np.zeros((1, s, 2))
    O[0, :, 1] = p
    O[0, :, 0] = 1 - p
    model = POMDP(T, O, np.zeros((1, s, s, 2)), np.full(s, 1. / s), 1.)
    n = r.choice([5, 10, 40, 150])
    b = ParticleBelief(model.sample_start, s, n_particles=n)
    new, hits = observe_update(case, b, model, 0, 1, n)
    if new is not None and len(hits) < n:
        # the rest is drawn among the particles found
        found = collections.Counter(hits)
        got = counts_of(case, new, n)
        extra = n - len(hits)
        stats.frequencies({k: got[k] - found[k] for k in got if got[k] > found[k]},
                          {k: v / len(hits) for k, v in found.items()}, extra, 'states of the duplicated particles')
    case.key(s, p, n, tuple(hits))
    case.note(p_observation=p, n_particles=n, found=len(hits))


def runner(case):
    """Beliefs of the planner."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    from task_models.lib.belief import MaxSamplesReached
    r = case.rng
    parts, model = explicit(case)
    n = r.choice([1, 5, 37])
    pol = POMCPPolicyRunner(model, iterations=r.choice([2, 10]), horizon=r.choice([1, 3]), belief='particle',
                            belief_params={'n_particles': n}, logger=pomcpref.quiet)
    reach = {i for i, p in enumerate(parts['start']) if p > 0}
    state = case.np.choice(model.n_states, p=parts['start'])
    hist = []
    for _ in range(r.randint(1, 5)):
        case.check(set(counts_of(case, pol.belief, n)) <= reach, 'particles in impossible states after {}', hist)
        a = list(model.actions).index(pol.get_action())
        before = counts_of(case, pol.belief, n)
        if r.random() < .3:
            bad = [o for o in range(model.n_observations)
                   if all(parts['T'][a][s][t] == 0 or parts['O'][a][t][o] == 0 for s in reach
                          for t in range(model.n_states))]
            if bad:
                case.raises(MaxSamplesReached, lambda: pol.step(model.observations[bad[0]]), 'impossible observation')
                case.event('failed updates')
                case.equal(counts_of(case, pol.belief, n), before, 'particles after an impossible observation')
        state, o, _ = model.sample_transition(a, state)
        try:
            pol.step(model.observations[o])
        except MaxSamplesReached:
            break
        reach = {t for s in reach for t in range(model.n_states)
                 if parts['T'][a][s][t] > 0 and parts['O'][a][t][o] > 0}
        hist += [a, int(o)]
        case.event('updates')
    # every node of the tree
    stack = [pol.tree.root]
    while stack:
        nd = stack.pop()
        counts_of(case, nd.belief, n)
        case.event('beliefs of nodes')
        for act in nd.children:
            if act is not None:
                stack.extend(act.children.values())
    case.key(parts['T'].tobytes(), n, tuple(hist))
    case.note(shape=parts['R'].shape, n_particles=n, history=hist)


def supportive(case):
    from task_models.lib.belief import ParticleBelief
    r = case.rng
    model, proc = c11.random_process(case, max_leaves=4, n_prefs=1, max_objects=2)
    n = r.choice([5, 20, 60])
    b = ParticleBelief(model.sample_start, model.n_states, n_particles=n)
    for s in counts_of(case, b, n):
        case.check(c11.describe(model, proc, s)[0] in proc.first, 'particle {} is no start',
                   c11.describe(model, proc, s))
    state = model.sample_start()
    hist = []
    for _ in range(r.randint(1, 5)):
        a = r.randrange(model.n_actions)
        ns, o, _ = model.sample_transition(a, state)
        prior = counts_of(case, b, n)
        new, hits = observe_update(case, b, model, a, int(o), n)
        hist += [a, int(o)]
        if new is None:
            break
        possible = set()
        for s in prior:
            for (s2, o2, _r) in outcomes(proc, model, a, s):
                if o2 == model.observations[o]:
                    possible.add(s2)
        for s in counts_of(case, new, n):
            case.check(c11.describe(model, proc, s) in possible, 'particle {} is impossible after {}',
                       c11.describe(model, proc, s), hist)
        b, state = new, ns
    case.key(proc.tree, tuple(hist), n)
    case.note(task=proc.tree, history=hist, n_particles=n)


def outcomes(proc, model, a, s):
    for out in proc.outcomes(model.actions[a], c11.describe(model, proc, s), True):
        yield out
