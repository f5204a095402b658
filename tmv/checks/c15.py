"""C15: the online planner tracks the belief of the real history."""
import numpy as np

from .. import gen, pomcpref
from . import c11

PROPERTY = 'C15'
RULE = ('random explicit models, shared or unshared beliefs, random sequences of acting, stepping (possible, impossible '
        'and unknown observations), stepping before acting and resetting; after each call history, belief and '
        'statistics are compared with an independent Bayes filter and snapshots. Non-trivial: distinct (model, calls).')
ASSUMPTIONS = ['stepping twice after one action repeats the last action (neither documented nor used): not exercised']


def run(ctx):
    ctx.cases('session', ctx.n(2700, 20000), session)
    ctx.cases('sharing', ctx.n(900, 8000), sharing)
    ctx.cases('supportive', ctx.n(120, 800), supportive)
    ctx.cases('refused', ctx.n(60, 600), refused)
    ctx.require('beliefs compared', 1000)
    ctx.require('impossible observations', 50)
    ctx.require('unknown observations', 50)
    ctx.require('early steps', 50)
    ctx.require('resets', 100)
    ctx.require('shared nodes', 50)
    for w in ('belief', 'horizon', 'particles shared'):
        ctx.require('refused: ' + w, 5)


def refused(case):
    """Representations of the belief and horizons that are not supported are refused."""
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    parts, model = pomcpref.small_model(case)
    kw = {'horizon': 3, 'belief': 'array', 'belief_values': False, 'logger': pomcpref.quiet}
    why = r.choice(['belief', 'horizon', 'particles shared'])
    if why == 'belief':
        kw.update(belief=r.choice(['', 'Array', 'arrays', 'particles', 'exact']), belief_values=r.random() < .4)
    elif why == 'horizon':
        kw['horizon'] = r.choice([2.5, '3', None, [3], {}, object()])
    else:
        kw.update(belief='particle', belief_values=True)
    if r.random() < .5:
        kw['exploration'] = 2.
    case.note(why=why, settings=str(kw))
    case.raises(ValueError, lambda: POMCPPolicyRunner(model, **kw), 'a planner with unsupported settings {}'.format(kw))
    case.event('refused: ' + why)
    case.key(why, str(sorted(map(str, kw.items()))))


def make(case, model, shared, **kw):
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = case.rng
    return POMCPPolicyRunner(model, iterations=r.choice([1, 3, 10, 30]), horizon=r.choice([1, 2, 4]),
                             rollout_it=r.choice([1, 2]), exploration=r.choice([None, 1., 50.]),
                             relative_exploration=r.random() < .3, belief_values=shared, logger=pomcpref.quiet, **kw)


def session(case):
    from task_models.lib.pomdp import Impossible
    r = case.rng
    parts, model = pomcpref.small_model(case, max_o=4, style=r.choice([None, 'det', 'sparse', 'grid', 'dense']))
    actions, observations = list(model.actions), list(model.observations)
    shared = r.random() < .4
    runner = make(case, model, shared)
    hist, belief, last = [], [float(x) for x in parts['start']], None
    ops = []

    def check(what):
        case.equal([int(h) for h in runner.history], hist, 'history after ' + what)
        case.close(runner.belief.array, belief, 'belief after {} ({})'.format(what, ops))
        case.event('beliefs compared')

    check('construction')
    for _ in range(r.randint(1, 14)):
        before = pomcpref.snapshot(runner.tree)
        if last is None:
            op = r.choice(['act', 'act', 'early', 'reset'])
        else:
            op = r.choice(['step', 'step', 'step', 'act', 'impossible', 'unknown', 'reset'])
        if op == 'act':
            a = runner.get_action(**({'iterations': r.choice([0, 1, 5])} if r.random() < .4 else {}))
            case.check(a in actions, 'unknown action {!r}', a)
            last = actions.index(a)
        elif op == 'early':
            case.raises(ValueError, lambda: runner.step(r.choice(observations)), 'stepping before acting')
            case.event('early steps')
        elif op == 'unknown':
            case.raises(ValueError, lambda: runner.step('no such observation'), 'unknown observation')
            case.event('unknown observations')
        elif op == 'reset':
            runner.reset()
            hist, belief, last = [], [float(x) for x in parts['start']], None
            case.event('resets')
        else:
            post = {}
            for o in range(len(observations)):
                post[o] = gen.bayes(parts['T'], parts['O'], last, o, belief)
            if op == 'step':
                o = r.choice([o for o in post if post[o][1] > 1e-6])
                runner.step(observations[o])
                hist = hist + [last, o]
                belief = post[o][0]
                last = None         # an action is asked for before the next step
            else:
                bad = [o for o in post if post[o][1] == 0.]
                if not bad:
                    continue
                o = r.choice(bad)
                case.raises(Impossible, lambda: runner.step(observations[o]), 'impossible observation')
                case.event('impossible observations')
        ops.append(op)
        check(op)
        if op != 'act':
            after = pomcpref.snapshot(runner.tree)
            lost = {p for p in before if before[p][0] and before[p] != after.get(p)} if not shared else set()
            case.check(not lost, '{} changed what was learnt at {}', op, sorted(lost)[:2])
            case.equal(sum(x[0] for x in after.values()), sum(x[0] for x in before.values()),
                       'visits in the tree after ' + op)
        # planning goes on from the node of this belief
        if r.random() < .3:
            with pomcpref.recorded(model) as log:
                runner.tree.log = pomcpref.quiet
                a = runner.get_action(iterations=3)
                if log:
                    case.check(belief[log[0][2]] > 0, 'planning after {} starts in state {}, which is impossible',
                               op, log[0][2])
            last = actions.index(a)
            check('planning')
        if op == 'step' and last is None:
            # the next operation must act first; an early step here is not exercised
            a = runner.get_action(iterations=r.choice([0, 2]))
            last = actions.index(a)
            check('acting')
    case.key(parts['T'].tobytes(), tuple(ops), shared)
    case.note(shape=parts['R'].shape, shared=shared, ops=ops)


def sharing(case):
    """The nodes of a belief-sharing tree."""
    r = case.rng
    style = r.choice(['det', 'grid', 'uniform', 'sparse', 'dense'])
    parts, model = pomcpref.small_model(case, style=style)
    runner = make(case, model, True)
    for _ in range(r.randint(1, 4)):
        a = runner.get_action(iterations=r.randint(1, 60))
        if r.random() < .6:
            b = runner.belief.array
            ai = list(model.actions).index(a)
            o = model.sample_transition(ai, case.np.choice(len(b), p=np.asarray(b) / np.sum(b)))[1]
            runner.step(model.observations[o])
        else:
            runner.reset()
    by_belief, seen = {}, set()
    stack = [runner.tree.root]
    case.close(runner.tree.root.belief.array, parts['start'], 'belief of the root')
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        k = (np.asarray(n.belief.array, dtype=float) + 0.).tobytes()
        case.check(k not in by_belief, 'two nodes for the same belief {}', n.belief.array)
        by_belief[k] = n
        for a, act in enumerate(n.children):
            if act is None:
                continue
            for o, c in act.children.items():
                p, _ = gen.bayes(parts['T'], parts['O'], a, o, n.belief.array)
                case.close(c.belief.array, p, 'belief of the node after action {} and observation {}'.format(a, o))
                case.event('beliefs compared')
                if id(c) in seen:
                    case.event('shared nodes')
                stack.append(c)
    # histories with different beliefs reach different nodes, those with equal beliefs the same one
    for _ in range(5):
        n, h = runner.tree.root, []
        for _ in range(r.randint(1, 4)):
            a = r.randrange(model.n_actions)
            opts = [o for o in range(model.n_observations)
                    if gen.bayes(parts['T'], parts['O'], a, o, n.belief.array)[1] > 1e-9]
            o = r.choice(opts)
            h += [a, o]
            n = runner.tree.get_node(h)
        k = (np.asarray(n.belief.array, dtype=float) + 0.).tobytes()
        case.check(by_belief.setdefault(k, n) is n, 'history {} does not share the node of its belief', h)
        case.event('histories looked up')
    case.key(parts['T'].tobytes(), len(seen))
    case.note(style=style, shape=parts['R'].shape, nodes=len(seen))


def supportive(case):
    """History and reset with particle beliefs (the belief itself is monitored by C16)."""
    r = case.rng
    from task_models.lib.belief import MaxSamplesReached
    model, proc = c11.random_process(case, max_leaves=3, n_prefs=1, max_objects=2)
    runner = make(case, model, False, belief='particle', belief_params={'n_particles': r.choice([5, 20])})
    case.raises(ValueError, lambda: runner.step('none'), 'stepping before acting')
    case.event('early steps')
    hist, state = [], model.sample_start()
    start = np.array(runner.belief.array)
    for _ in range(r.randint(1, 8)):
        a = model.actions.index(runner.get_action())
        before = np.array(runner.belief.array)
        case.raises(ValueError, lambda: runner.step('no such observation'), 'unknown observation')
        case.event('unknown observations')
        case.equal([int(h) for h in runner.history], hist, 'history after a refused step')
        case.equal(runner.belief.array.tolist(), before.tolist(), 'belief after a refused step')
        # an observation that no state produces: "yes" is an answer to questions only
        if not model.actions[a].startswith('ask'):
            case.raises(MaxSamplesReached, lambda: runner.step('yes'), 'impossible observation')
            case.event('impossible observations')
            case.equal([int(h) for h in runner.history], hist, 'history after an impossible observation')
            case.equal(runner.belief.array.tolist(), before.tolist(), 'belief after an impossible observation')
        ns, o, _ = model.sample_transition(a, state)
        try:
            runner.step(model.observations[o])
        except MaxSamplesReached:
            case.equal([int(h) for h in runner.history], hist, 'history after a failed step')
            case.equal(runner.belief.array.tolist(), before.tolist(), 'belief after a failed step')
            break
        state = ns
        hist += [a, int(o)]
        case.equal([int(h) for h in runner.history], hist, 'history')
    visits = pomcpref.snapshot(runner.tree)
    runner.reset()
    case.equal(runner.history, [], 'history after a reset')
    case.equal(runner.belief.array.tolist(), start.tolist(), 'belief after a reset')
    case.equal(pomcpref.snapshot(runner.tree), visits, 'what was learnt, after a reset')
    case.event('resets')
    case.key(proc.tree, hist)
    case.note(task=proc.tree, history=hist)
