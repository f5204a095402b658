"""C32: planning converges to the best action."""
import numpy as np

from .. import core, gen, pomcpref

PROPERTY = 'C32'
RULE = ('small random models in which actions differ in value (rewards for information, delayed rewards, costs of errors) '
        'are planned for with every kind of unshared belief, before and after real steps; the action taken and the '
        'estimated values are compared with the exact optimum over beliefs for the same horizon. The number of '
        'simulations is increased fourfold (three times) before an action worse than the tolerance counts. '
        'Non-trivial: distinct models with a gap between actions.')
ASSUMPTIONS = ['convergence is decided by tolerances of 15% (actions) and 25% (values) of the span of possible returns '
               'after at most 64 times the initial number of simulations',
               'visits of a node made with fewer transitions left (before it became current) count for its values: '
               'convergence is decided for nodes without any',
               'relative exploration does not explore while all values are equal: left out; '
               'shared nodes average values over different remaining horizons and are left out']


def run(ctx):
    ctx.cases('root', ctx.n(160, 1600), root)
    ctx.cases('stepped', ctx.n(60, 600), stepped)
    ctx.cases('information', ctx.n(40, 400), information)
    ctx.cases('explored', ctx.n(48, 480), explored)
    ctx.require('actions compared', 150)
    ctx.require('exploration bounds', 40)
    ctx.require('worse actions available', 150)


class Exact(object):
    """Optimal values over beliefs, by exhaustive search in plain Python."""

    def __init__(self, parts):
        self.T, self.O, self.R = (np.asarray(parts[k], dtype=float) for k in 'TOR')
        self.g = parts['discount']
        self.nA, self.nS, self.nO = self.O.shape
        # expected reward of (a, s)
        self.r = np.einsum('ast,ato,asto->as', self.T, self.O, self.R)
        self.memo = {}

    def q(self, b, h):
        """Values of the actions with h transitions left."""
        key = (tuple(b), h)
        if key in self.memo:
            return self.memo[key]
        out = []
        for a in range(self.nA):
            v = float(np.dot(b, self.r[a]))
            if h > 1 and self.g > 0:
                pred = np.dot(b, self.T[a])
                for o in range(self.nO):
                    w = pred * self.O[a][:, o]
                    z = w.sum()
                    if z > 1e-15:
                        v += self.g * z * max(self.q(w / z, h - 1))
            out.append(v)
        self.memo[key] = out
        return out

    def span(self, h):
        used = self.R[(self.T[..., None] * self.O[:, None] > 0)]
        return max(1e-9, (used.max() - used.min()) * sum(self.g ** i for i in range(h)))


def draw(case, h, max_s=3, max_a=3, max_o=2):
    """A model whose actions differ clearly at the start belief."""
    r = case.np
    for _ in range(60):
        parts = gen.pomdp_parts(case, s=r.randint(2, max_s + 1), a=r.randint(2, max_a + 1), o=r.randint(1, max_o + 1),
                                style=['grid', 'dense', 'sparse', 'det'][r.randint(4)],
                                discount=[1., .95, .8, .5][r.randint(4)])
        kind = r.randint(4)
        if kind == 0:       # rewards depend on the observation or on the arrival only
            parts['R'] = np.broadcast_to(r.randint(-5, 6, size=parts['R'].shape[-1]) * 1., parts['R'].shape).copy()
        elif kind == 1:
            parts['R'] = np.broadcast_to(r.randint(-5, 6, size=parts['R'].shape[2])[:, None] * 1., parts['R'].shape).copy()
        elif kind == 2:
            parts['R'] = parts['R'] + r.choice([-20., 20.])
        e = Exact(parts)
        q = e.q(np.asarray(parts['start'], dtype=float), h)
        if max(q) - min(q) > .3 * e.span(h):
            return parts, e
    return parts, e


def planner(case, model, h, e, belief):
    from task_models.lib.pomcp import POMCPPolicyRunner
    return POMCPPolicyRunner(
        model, iterations=10, horizon=h, rollout_it=case.rng.choice([1, 1, 3]),
        exploration=e.span(h) * case.rng.choice([.7, 1.]), belief=belief, belief_params={'n_particles': 200} if belief == 'particle' else {}, logger=pomcpref.quiet)


def judge(case, runner, e, b, h, what, first):
    """Plans from the current node until the action is good."""
    q = e.q(np.asarray(b, dtype=float), h)
    span = e.span(h)
    actions = list(runner.actions)
    n = first
    for _ in range(4):
        a = actions.index(runner.get_action(iterations=n))
        node = runner.tree.get_node(list(runner.history))
        bad = None
        if q[a] < max(q) - .15 * span:
            bad = 'the action {} is worth {:.4g} when {:.4g} is possible'.format(a, q[a], max(q))
        elif abs(node.children[a].value - q[a]) > .25 * span:
            bad = 'the value of action {} is estimated as {:.4g} and is {:.4g}'.format(a, node.children[a].value, q[a])
        case.event('simulations', n)
        if bad is None:
            break
        case.event('simulated longer')
        n *= 4
    else:
        case.fail('{} {} after {} simulations (values of the actions {}, span of returns {:.4g}, horizon {})'.format(
            bad, what, node.n_simulations, [round(x, 4) for x in q], span, h))
    case.event('actions compared')
    if min(q) < max(q) - .3 * span:
        case.event('worse actions available')
    return a


def setup(case, max_h=3):
    h = case.rng.randint(1, max_h)
    belief = case.rng.choice(['array', 'array', 'particle'])
    parts, e = draw(case, h, max_a=2 if h == 3 else 3)
    case.key(repr(parts), h, belief)
    case.note(horizon=h, belief=belief, **parts)
    model = gen.make_pomdp(parts)
    return parts, e, model, planner(case, model, h, e, belief), h


def root(case):
    parts, e, model, runner, h = setup(case)
    judge(case, runner, e, parts['start'], h, 'at the start', 700)


def stepped(case):
    """After real steps decided without any simulation."""
    parts, e, model, runner, h = setup(case, 2)
    b = np.asarray(parts['start'], dtype=float)
    for k in range(case.rng.randint(1, 3)):
        a = list(model.actions).index(runner.get_action(iterations=0))
        p = {}
        for o in range(e.nO):
            post, z = gen.bayes(parts['T'], parts['O'], a, o, b)
            if z > .2:
                p[o] = post
        if not p:
            break
        o = case.rng.choice(sorted(p))
        runner.step(list(model.observations)[o])
        b = np.asarray(p[o])
        case.event('steps')
    judge(case, runner, e, b, h, 'after some steps', 1500)


def information(case):
    """Tiger-like models: looking first is best although acting at once is possible."""
    r = case.rng
    n = r.randint(2, 3)
    acc = r.choice([.85, .95, 1.])
    T = np.zeros((n + 1, n, n))
    O = np.zeros((n + 1, n, n))
    R = np.zeros((n + 1, n, n, n))
    T[:] = np.eye(n)
    O[:] = 1. / n
    O[0] = np.full((n, n), (1 - acc) / (n - 1))
    np.fill_diagonal(O[0], acc)
    R[0] = -1.
    for i in range(n):
        T[i + 1] = 1. / n
        R[i + 1] = -10. * r.choice([1, 3, 5])
        R[i + 1, i] = 10.
    parts = dict(T=T, O=O, R=R, start=np.ones(n) / n, discount=r.choice([1., .95]))
    e = Exact(parts)
    h = 2
    q = e.q(np.asarray(parts['start']), h)
    case.key(repr(parts))
    model = gen.make_pomdp(parts)
    runner = planner(case, model, h, e, r.choice(['array', 'particle']))
    case.note(**parts)
    a = judge(case, runner, e, parts['start'], h, 'at the start', 3000)
    if a == 0 and q[0] == max(q):
        case.event('looked first')


def explored(case):
    """No action is given up: with optimistic exploration each keeps being tried, however bad it looks.

    When the most tried action j was last chosen over i, value_j + c sqrt(ln N / n_j) >= value_i + c sqrt(ln N / n_i), so
    that n_i is at least of the order of c^2 ln N / (span + c sqrt(ln N / n_j))^2."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    h = case.rng.randint(1, 2)
    parts, e = draw(case, h, max_a=4)
    model = gen.make_pomdp(parts)
    span = e.span(h)
    c = 10 * span
    runner = POMCPPolicyRunner(model, iterations=10, horizon=h, exploration=c, belief='array', logger=pomcpref.quiet)
    n = case.rng.choice([2000, 4000])
    runner.get_action(iterations=n)
    visits = [0 if x is None else x.n_simulations for x in runner.tree.root.children]
    top = max(visits)
    bound = .5 * c ** 2 * np.log(n) / (span + c * np.sqrt(np.log(n) / top)) ** 2
    case.check(min(visits) >= bound, 'the actions were tried {} times: exploration weight {:.4g}, span of returns {:.4g}, '
               'at least {:.4g} expected', visits, c, span, bound)
    case.event('exploration bounds')
    case.key(repr(parts), n)
    case.note(visits=visits, bound=bound, **parts)
