"""C18: horizons bound every simulation exactly."""
from .. import pomcpref
from . import c11, c13

PROPERTY = 'C18'
RULE = ('random horizons of the three kinds driven by real trajectories with copies taken at random points, generators, '
        'and the lengths of recorded planning simulations, rollouts and evaluation episodes, against independent '
        'counters. Non-trivial: distinct (kind, length, trajectory).')
ASSUMPTIONS = []


def run(ctx):
    ctx.cases('objects', ctx.n(2400, 20000), objects)
    ctx.cases('explicit', ctx.n(1200, 8000), explicit)
    ctx.cases('long', ctx.n(160, 1200), long)
    ctx.cases('planning', ctx.n(640, 4000), planning)
    ctx.cases('episodes', ctx.n(800, 4000), episodes)
    for k in ('n', 'htm', 'finished'):
        ctx.require('horizon driven: ' + k, 50)
        ctx.require('copies: ' + k, 50)
        ctx.require('simulations: ' + k, 50)
    ctx.require('reached on completion: htm', 10)
    ctx.require('reached on completion: finished', 10)
    ctx.require('reached on length: htm', 10)
    ctx.require('reached on length: finished', 10)
    ctx.require('episodes', 100)
    ctx.require('long horizons', 50)


def horizons(case, model, kind, n):
    """(generator of the code, constructor of the reference)"""
    from task_models.supportive import NHTMHorizon
    from task_models.evaluation import FinishedOrNTransitionsHorizon
    from task_models.lib.pomcp import NTransitionsHorizon
    final = lambda s: model._int_to_state(int(s)).htm == model.n_htm_states - 1
    step = lambda s: model._int_to_state(int(s)).htm
    if kind == 'htm':
        return NHTMHorizon.generator(model, n=n), lambda: pomcpref.NSteps(n, step, final)
    if kind == 'finished':
        return FinishedOrNTransitionsHorizon.generator(model, n=n), lambda: pomcpref.FinishedOrN(n, final)
    return NTransitionsHorizon.generator(model, n=n), lambda: pomcpref.NTransitions(n)


def supportive_model(case, max_leaves=3):
    model, proc = c11.random_process(case, max_leaves=max_leaves, n_prefs=1, max_objects=2)
    if model.p_fail > .5:
        type(model).p_fail = .3
    return model


def trajectory(case, model, length):
    """Mostly progressing actions."""
    r = case.rng
    s = model.sample_start()
    progress = [i for i, a in enumerate(model.actions) if a in ('wait', 'hold H', 'hold V')]
    for _ in range(length):
        a = r.choice(progress) if r.random() < .8 else r.randrange(model.n_actions)
        ns, o, _ = model.sample_transition(a, s)
        yield a, s, ns, o
        s = ns


def objects(case):
    r = case.rng
    model = supportive_model(case)
    kind = r.choice(['n', 'htm', 'finished'])
    n = r.choice([0, 1, 2, 3, 5, 8, 20])
    make, ref = horizons(case, model, kind, n)
    pairs = [(make(), ref(), 'first')]
    case.event('horizon driven: ' + kind)
    tr = list(trajectory(case, model, r.randint(1, 30)))
    for i, (a, s, ns, o) in enumerate(tr):
        for j, (h, e, what) in enumerate(list(pairs)):
            case.equal(bool(h.is_reached()), e.reached(), '{} horizon {}, {}: reached after {} of {}'.format(
                kind, n, what, i, tr))
        roll = r.random()
        if roll < .2 and len(pairs) < 6:
            h, e, what = r.choice(pairs)
            c = h.copy()
            case.check(c is not h, 'a copy is the original')
            case.check(type(c) is type(h), 'a copy is of another kind')
            pairs.append((c, e.copy(), 'copy at {}'.format(i)))
            case.equal(bool(c.is_reached()), e.reached(), '{} horizon {}: copy reached after {} steps'.format(
                kind, n, i))
            case.event('copies: ' + kind)
        elif roll < .3 and len(pairs) < 6:
            h = make()
            case.check(all(h is not p[0] for p in pairs), 'the generator returned an earlier horizon')
            pairs.append((h, ref(), 'generated at {}'.format(i)))
        # any subset of them moves on
        for h, e, what in pairs:
            if e.reached() or r.random() < .2:
                continue
            h.decrement(a, s, ns, o)
            e.dec(s, ns)
            if e.reached() and kind != 'n':
                case.event('reached on {}: {}'.format(
                    'length' if e.n <= 0 and not e.done else 'completion', kind))
    for h, e, what in pairs:
        case.equal(bool(h.is_reached()), e.reached(), '{} horizon {}, {}: reached'.format(kind, n, what))
    case.key(kind, n, [x[1:3] for x in tr])
    case.note(kind=kind, n=n, trajectory=[x[:3] for x in tr])


def lengths(case, model, tree, kind, ref, roll, n_sims, make=None):
    """Lengths of simulations from the root and from deeper nodes, by replay."""
    shadow = pomcpref.Shadow(case, tree, model.n_actions, model.discount, ref, roll)
    with pomcpref.recorded(model) as log:
        path, node = [], tree.root
        for _ in range(n_sims):
            del log[:]
            tree.simulate_from_node(node)
            end = shadow.simulate(log, 0, node, path)
            case.check(end == len(log), 'a simulation goes on for {} transitions after its end', len(log) - end)
            case.event('simulations: ' + kind)
            if case.rng.random() < .1:
                known = [(a, o) for a, c in enumerate(node.children) if c is not None for o in c.children]
                if known:
                    path = path + list(case.rng.choice(known))
                    node = tree.get_node(path)
    case.key(kind, roll, model.n_states, sorted(s.n for s in shadow.stats.values()), shadow.max_depth)


def explicit(case):
    """Exact number of transitions: with a fresh tree a simulation has depth d and rollouts of length n - d."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    parts, model = pomcpref.small_model(case, max_o=2)
    n = r.choice([0, 1, 2, 3, 5, 9])
    roll = r.choice([1, 3])
    runner = POMCPPolicyRunner(model, horizon=n, iterations=10, rollout_it=roll, logger=pomcpref.quiet)
    with pomcpref.recorded(model) as log:
        runner.tree.simulate_from_node(runner.tree.root)
        case.equal(len(log), 0 if n == 0 else 1 + roll * (n - 1), 'transitions of a first simulation of horizon {} '
                   'with {} rollouts'.format(n, roll))
        if roll == 1:
            for _ in range(30):
                del log[:]
                runner.tree.simulate_from_node(runner.tree.root)
                case.equal(len(log), n, 'transitions of a simulation of horizon {}'.format(n))
                case.event('simulations: n')
    runner2 = POMCPPolicyRunner(model, horizon=n, iterations=10, rollout_it=roll, logger=pomcpref.quiet)
    lengths(case, model, runner2.tree, 'n', lambda: pomcpref.NTransitions(n), roll, 30)
    case.note(horizon=n, rollouts=roll, shape=parts['R'].shape)


def long(case):
    """Horizons much longer than usual, and the default ones."""
    from task_models.evaluation import FinishedOrNTransitionsHorizon, simulate_one_evaluation
    from task_models.lib.pomcp import NTransitionsHorizon, POMCPPolicyRunner
    r = case.rng
    n = r.choice([100, 101, r.randint(100, 1000), r.randint(1000, 5000), 10 ** 6 + r.randint(0, 9)])
    kind = case.index % 4
    if kind == 0:       # objects
        model = supportive_model(case)
        which = r.choice(['n', 'finished'])
        make, ref = horizons(case, model, which, n)
        h = make()
        s = model.sample_start()
        k = 0
        while k < min(n, 6000):
            case.check(not h.is_reached(), '{} horizon of {}: reached after {}', which, n, k)
            h.decrement(0, s, s, 0)
            k += 1
            if r.random() < .01:
                h = h.copy()
        case.equal(bool(h.is_reached()), k == n, '{} horizon of {}: reached after {}'.format(which, n, k))
    elif kind == 1:     # planning
        parts, model = pomcpref.small_model(case, max_o=2)
        n = min(n, 3000)
        roll = r.choice([1, 1, 3])
        default = r.random() < .3
        kw = {} if default else {'horizon': n}
        if not default and r.random() < .5:
            kw['horizon'] = NTransitionsHorizon.generator(model, n=n)
        if default:
            n = 100
        runner = POMCPPolicyRunner(model, iterations=10, rollout_it=roll, logger=pomcpref.quiet, **kw)
        with pomcpref.recorded(model) as log:
            runner.tree.simulate_from_node(runner.tree.root)
            case.equal(len(log), 1 + roll * (n - 1), 'transitions of a first simulation of horizon {} with {} rollouts'
                       .format('(default)' if default else n, roll))
            if roll == 1:
                for _ in range(5):
                    del log[:]
                    runner.tree.simulate_from_node(runner.tree.root)
                    case.equal(len(log), n, 'transitions of a simulation of horizon {}'.format(n))
    elif kind == 2:     # episodes that are never completed
        model = supportive_model(case, max_leaves=2)
        n = min(n, 2000)

        class Asking(Random):
            def get_action(self):
                return 'ask hold'

        res = simulate_one_evaluation(model, Asking(r, model), max_horizon=n)
        case.equal(len(res['states']) - 1, n, 'transitions of an episode that is not completed')
    else:               # many task steps
        from task_models.supportive import NHTMHorizon
        model, proc = c11.random_process(case, max_leaves=8, n_prefs=1, max_objects=2)
        n = r.choice([20, 100, 150, 1000])
        h, e = NHTMHorizon(model, n=n) if r.random() < .5 else NHTMHorizon.generator(model, n=n)(), None
        left = n
        states = [model.sample_start() for _ in range(3)]
        for _ in range(6):
            for _, s, ns, o in trajectory(case, model, 12):
                step = [model._int_to_state(int(x)).htm for x in (s, ns)]
                if step[1] != model.n_htm_states - 1:
                    states.append((s, ns, o, step[0] != step[1]))
        states = [x for x in states if isinstance(x, tuple)]
        moves = [x for x in states if x[3]]
        if not moves:
            return
        k = 0
        while left > 0:
            case.check(not h.is_reached(), 'horizon of {} task steps: reached after {}', n, n - left)
            s, ns, o, moved = r.choice(moves if r.random() < .6 else states)
            h.decrement(0, s, ns, o)
            left -= moved
            if r.random() < .05:
                h = h.copy()
        case.check(h.is_reached(), 'horizon of {} task steps: not reached', n)
    case.event('long horizons')
    case.key('long', kind, n)
    case.note(kind=kind, n=n)


def planning(case):
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    model = supportive_model(case)
    kind = r.choice(['n', 'htm', 'finished'])
    n = r.choice([1, 2] if kind == 'htm' else [1, 2, 4, 8])
    make, ref = horizons(case, model, kind, n)
    roll = r.choice([1, 1, 3])
    runner = POMCPPolicyRunner(model, horizon=make, iterations=5, rollout_it=roll, belief='particle',
                               belief_params={'n_particles': 5}, logger=pomcpref.quiet)
    runner.tree.log = pomcpref.quiet
    lengths(case, model, runner.tree, kind, ref, roll, 20)
    case.note(kind=kind, n=n, rollouts=roll)


class Random:
    """A policy acting at random."""

    def __init__(self, rng, model):
        self.rng, self.model = rng, model

    def reset(self):
        pass

    def get_action(self):
        if self.rng.random() < .6:
            return self.rng.choice(['wait', 'hold H', 'hold V'])
        return self.rng.choice(list(self.model.actions))

    def step(self, o):
        pass


def episodes(case):
    from task_models.evaluation import simulate_one_evaluation
    model = supportive_model(case, max_leaves=2)
    n = case.rng.choice([0, 1, 3, 10, 60])
    r = simulate_one_evaluation(model, Random(case.rng, model), max_horizon=n)
    states = r['states']
    final = [model._int_to_state(s).htm == model.n_htm_states - 1 for s in states]
    k = len(states) - 1
    case.check(k <= n, 'an episode of {} transitions with a limit of {}', k, n)
    case.check(not any(final[:-1]), 'an episode goes on after completion: {}', final)
    case.check(k == n or final[-1], 'an episode stopped after {} transitions with a limit of {} before completion', k, n)
    case.event('episodes')
    case.event('episodes completed', int(final[-1]))
    case.key(n, states)
    case.note(limit=n, transitions=k, completed=final[-1])
