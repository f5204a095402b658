"""Self-contained uses of the library, as generators that yield what a user sees at each step.

All their own choices come from a stream derived from the session's number; the library's choices come from numpy's
global stream. A session can therefore be run alone, in another process, or interleaved with others (each with its own
state of the global stream), and must show the same."""
import hashlib
import json
import os
import random
import sys

import numpy as np

from . import core, gen, graphgen, pomcpref


class Stub(object):
    """The part of core.Case that generators need."""

    def __init__(self, *seed):
        self.seed = core.seed_of('session', *seed)
        self.rng = random.Random(self.seed)
        self.np = np.random.RandomState(self.seed % 2 ** 32)

    def event(self, *a):
        pass

    def key(self, *a):
        pass

    def note(self, **k):
        pass

    def equal(self, *a, **k):
        pass

    check = close = equal


def plain(x):
    """Exact, order-preserving, printable form."""
    if isinstance(x, np.ndarray):
        return [list(x.shape), hashlib.md5((np.asarray(x, dtype=float) + 0.).tobytes()).hexdigest()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def tree_stats(runner):
    out = []

    def walk(node, depth):
        out.append([depth, node.n_simulations, node.value])
        kids = list(enumerate(node.children)) if isinstance(node.children, list) else sorted(node.children.items())
        for k, c in kids:
            if c is not None:
                out.append(int(k))
                walk(c, depth + 1)
    walk(runner.tree.root, 0)
    return out


# -- models ------------------------------------------------------------------
def _explicit(c):
    parts = gen.pomdp_parts(c, style=c.rng.choice([None, 'sparse', 'dense', 'grid']), named=True)
    return gen.make_pomdp(parts)


def _supportive(c):
    from .checks import c11
    return c11.random_process(c, max_leaves=c.rng.choice([1, 3, 5]))[0]


def _collaboration(c):
    from task_models.task import HierarchicalTask
    from task_models.task_to_pomdp import HTMToPOMDP
    from .checks import c08
    opt = dict(c08.options(c))
    tree = gen.random_tree(c, c.rng.choice([1, 2, 3]), 3, c08.random_leaf(c), max_leaves=6)
    conv = HTMToPOMDP(opt.pop('t_wait'), opt.pop('t_ask'), opt.pop('t_tell'), **opt)
    return conv.task_to_pomdp(HierarchicalTask(gen.tree_to_htm(tree, c08.make_action)))


def _fetching(c):
    from task_models.task import HierarchicalTask
    from task_models.bring_next_to_pomdp import HTMToPOMDP
    from .checks import c09
    objects = ['obj {}'.format(i) for i in range(c.rng.randint(1, 4))]
    kw = dict(c09.options(c, objects))
    tree = gen.random_tree(c, c.rng.choice([1, 2, 3]), 3, c09.random_leaf(objects, False)(c), max_leaves=6)
    conv = HTMToPOMDP(kw.pop('t_com'), kw.pop('t_get'), kw.pop('t_err'), kw.pop('objects'), **kw)
    return conv.task_to_pomdp(HierarchicalTask(gen.tree_to_htm(tree, c09.make_action)))


def _policy(c):
    """A policy for the explicit model of the same number."""
    from . import policies
    m = _explicit(Stub('model', 'explicit', c.number))
    return policies.make(policies.graph_parts(c, n_states=m.n_states, p_none=0., observations=list(m.observations),
                                              actions=list(m.actions)))


def _task(c):
    from task_models.task import HierarchicalTask
    from task_models.task_to_pomdp import CollaborativeAction
    tree = gen.random_tree(c, 3, 3, lambda i: 'step {}'.format(i), max_leaves=6)
    return HierarchicalTask(gen.tree_to_htm(tree, lambda n: CollaborativeAction(n, (1., 2., 3.))))


MODELS = {'policy': _policy, 'task': _task, 'explicit': _explicit, 'supportive': _supportive, 'collaboration': _collaboration, 'fetching': _fetching}


def build_model(kind, number):
    """Building uses nothing of the global stream of the session."""
    state = np.random.get_state()
    np.random.seed(core.seed_of('model', kind, number) % 2 ** 32)
    try:
        c = Stub('model', kind, number)
        c.number = number
        return MODELS[kind](c)
    finally:
        np.random.set_state(state)


# -- sessions ----------------------------------------------------------------
def simulate(c, model):
    for _ in range(3):
        s = model.sample_start()
        yield ['start', int(s)]
        for _ in range(c.rng.randint(3, 12)):
            a = c.rng.randrange(model.n_actions)
            s, o, r = model.sample_transition(a, s)
            yield [a, int(s), int(o), float(r)]


def filtering(c, model):
    b = np.array(model.start)
    s = model.sample_start()
    for _ in range(8):
        a = c.rng.randrange(model.n_actions)
        s, o, r = model.sample_transition(a, s)
        b = model.belief_update(a, o, b)
        yield [a, int(o), list(map(float, b))]


def describe(c, model):
    for f in ('states', 'actions', 'observations'):
        yield list(getattr(model, f))
    yield [model.discount] + [plain(getattr(model, f)) for f in ('T', 'O', 'R', 'start')]
    yield model.dump()
    yield json.dumps(model.to_dict()) if hasattr(model, 'to_dict') else None


def planning(c, model, belief='array', shared=False, horizon=None):
    from task_models.lib.belief import MaxSamplesReached
    from task_models.lib.pomcp import POMCPPolicyRunner
    r = c.rng
    default = belief == 'particle' and r.random() < .3      # 100 particles: slow
    runner = POMCPPolicyRunner(
        model, iterations=5 if default else r.choice([5, 20, 40]),
        horizon=horizon or r.choice([1, 2] if default else [1, 3, 5]), rollout_it=r.choice([1, 2]),
        exploration=r.choice([None, 1., 20.]), relative_exploration=r.random() < .3, belief_values=shared, belief=belief,
        logger=pomcpref.quiet, **({'belief_params': {'n_particles': 12}} if belief == 'particle' and not default else {}))
    for episode in range(2):
        s = model.sample_start()
        for _ in range(r.randint(1, 4)):
            a = runner.get_action()
            yield a
            s, o, rew = model.sample_transition(list(model.actions).index(a), s)
            try:
                runner.step(list(model.observations)[o])
            except MaxSamplesReached:
                yield 'lost'
                break
            yield [int(o), float(rew), [float(x) for x in np.asarray(runner.belief.array)[:200]],
                   [int(h) for h in runner.history]]
        if not shared:
            yield tree_stats(runner)
        runner.reset()
    yield json.dumps(runner.trajectory_trees_from_starts(qvalue=True), default=float)


def s_simulate(c):
    return simulate(c, c.model('explicit'))


def s_filter(c):
    return filtering(c, c.model('explicit'))


def s_describe(c):
    return describe(c, c.model('explicit'))


def s_randomized(c):
    m = _explicit(c)        # changed: not shared
    m.randomize()
    return describe(c, m)


def s_plan(c):
    return planning(c, c.model('explicit'))


def s_plan_shared(c):
    return planning(c, c.model('explicit'), shared=True)


def s_plan_particles(c):
    return planning(c, c.model('explicit'), belief='particle')


def s_plan_collaboration(c):
    return planning(c, c.model('collaboration'), shared=c.rng.random() < .5)


def s_plan_supportive(c):
    from task_models.supportive import NHTMHorizon
    from task_models.evaluation import FinishedOrNTransitionsHorizon
    m = c.model('supportive')
    cls = c.rng.choice([NHTMHorizon, FinishedOrNTransitionsHorizon])
    return planning(c, m, belief='particle', horizon=cls.generator(m, n=c.rng.randint(1, 4)))


def s_supportive(c):
    m = c.model('supportive')
    yield list(m.actions)
    yield list(m.objects)
    yield [n.name for n in m.htm_nodes]
    for x in simulate(c, m):
        yield x
    s = m.sample_start()
    for _ in range(10):
        a = m.actions.index(c.rng.choice(['wait', 'hold H', 'hold V']))
        s, o, r = m.sample_transition(a, s)
        yield [str(m._int_to_state(s)), int(o), float(r)]


def s_collaboration(c):
    m = c.model('collaboration')
    for x in describe(c, m):
        yield x
    for x in simulate(c, m):
        yield x


def s_fetching(c):
    m = c.model('fetching')
    for x in describe(c, m):
        yield x
    for x in filtering(c, m):
        yield x


def s_evaluation(c):
    from task_models.evaluation import simulate_one_evaluation
    from .checks import c26
    m = c.model('supportive')
    pol = c26.RandomPolicy(m)
    for _ in range(3):
        rep = simulate_one_evaluation(m, pol, max_horizon=c.rng.choice([3, 10, 30]))
        rep.pop('elapsed-time')
        yield plain(rep)


def s_scripted(c):
    from task_models.policy import PolicyLongSupportiveSequence
    from task_models.supportive import SupportivePOMDP, AssembleFoot, AssembleTopJoint
    from task_models.task import SequentialCombination, LeafCombination
    kinds = [AssembleFoot, AssembleTopJoint]
    m = SupportivePOMDP(SequentialCombination(
        [LeafCombination(k('leg-{}'.format(i))) for i in range(c.rng.randint(1, 3)) for k in kinds]))
    m.p_fail = .2
    m.p_changed_by_human = 0.
    pol = PolicyLongSupportiveSequence(m)
    for _ in range(2):
        pol.reset()
        s = m.sample_start()
        for _ in range(30):
            a = pol.get_action()
            yield a
            s, o, r = m.sample_transition(m.actions.index(a), s)
            try:
                pol.step(m.observations[o])
            except pol.UnexpectedObservation as e:
                yield str(e)
                break
            yield [int(s), int(o), float(r), [int(h) for h in pol.history]]


def s_expand(c):
    task = c.model('task')
    root = task.root

    def walk(n):
        return [type(n).__name__, n.name] + [walk(x) for x in ([] if hasattr(n, 'action') else n.children)]
    yield json.dumps(task.as_dictionary())
    yield walk(root)
    if hasattr(root, 'to_alternative'):
        yield walk(root.to_alternative())
    yield walk(root.deep_copy('copy of {}'))
    yield json.dumps(task.as_dictionary())


def s_convert(c):
    """Several models of one task."""
    from task_models.task_to_pomdp import HTMToPOMDP
    from .checks import c08
    task = c.model('task')
    for _ in range(2):
        opt = dict(c08.options(c))
        conv = HTMToPOMDP(opt.pop('t_wait'), opt.pop('t_ask'), opt.pop('t_tell'), **opt)
        for x in describe(c, conv.task_to_pomdp(task)):
            yield x
        yield json.dumps(task.as_dictionary())


def s_runner(c):
    from task_models.lib.pomdp import GraphPolicyRunner, GraphPolicyBeliefRunner, Impossible
    m = c.model('explicit')
    gp = c.model('policy')
    for make in (GraphPolicyRunner, lambda p: GraphPolicyBeliefRunner(p, m)):
        run = make(gp)
        for episode in range(3):
            s = m.sample_start()
            if episode:
                run.reset(**({} if c.rng.random() < .5 else {'belief': c.np.dirichlet(np.ones(m.n_states))}))
            yield int(run.current)
            for _ in range(4):
                a = run.get_action()
                yield a
                s, o, r = m.sample_transition(list(m.actions).index(a), s)
                try:
                    run.step(m.observations[o])
                except Impossible:
                    yield 'impossible'
                    break
                yield [int(o), float(r), int(run.current)]
    yield json.dumps(gp.to_dict())
    yield json.dumps(run.trajectory_trees_from_starts(horizon=2), default=float)


def s_repeat(c):
    from task_models.evaluation import evaluate
    from .checks import c26
    m = c.model('supportive')
    reports = [plain(rep) for rep in evaluate(m, c26.RandomPolicy(m), 3, max_horizon=5)]
    for rep in reports:
        rep.pop('elapsed-time')
    yield sorted(json.dumps(rep, sort_keys=True) for rep in reports)
    yield float(np.random.rand())


def s_tower(c):
    from task_models.tower_problem import TowerProblem
    from task_models.bring_next_to_pomdp import HTMToPOMDP
    tp = TowerProblem()
    m = HTMToPOMDP(2., 8., 5., tp.parts, end_reward=50., loop=c.rng.random() < .5).task_to_pomdp(
        tp.vertical_horizontal_task())
    for x in describe(c, m):
        yield x
    for x in simulate(c, m):
        yield x


def s_graphs(c):
    from .checks import c22
    n = c.rng.randint(2, 7)
    nodes = c22.make_nodes(c, n)
    names = {id(x): i for i, x in enumerate(nodes)}
    g, _ = c22.build(c, nodes, c22.random_arcs(c, n), 0)
    names[id(nodes[0])] = 0
    yield sorted(sorted(names[id(x)] for x in q) for q in g.get_max_cliques())
    yield sorted([names[id(x)] for x in ch] for ch in g.get_max_chains())


KINDS = {k[2:]: f for k, f in list(globals().items()) if k.startswith('s_')}


class World(object):
    """Gives the sessions their models: new ones, or the same ones to several sessions."""

    def __init__(self, models=None):
        self.models = models

    def model(self, kind, number):
        if self.models is None:
            return build_model(kind, number)
        if (kind, number) not in self.models:
            self.models[kind, number] = build_model(kind, number)
        return self.models[kind, number]


def session(kind, number, world):
    c = Stub(kind, number)
    c.model = lambda k: world.model(k, number // 100)
    return KINDS[kind](c)


class Running(object):
    """A session with its own state of numpy's global stream."""

    def __init__(self, kind, number, world=None):
        self.kind, self.number = kind, number
        self.world = world or World()
        np.random.seed(core.seed_of('stream', kind, number) % 2 ** 32)
        self.state = np.random.get_state()
        self.gen = None
        self.trace = []
        self.done = False

    def advance(self):
        np.random.set_state(self.state)
        try:
            if self.gen is None:
                self.gen = session(self.kind, self.number, self.world)
            self.trace.append(json.dumps(plain(next(self.gen)), sort_keys=False))
        except StopIteration:
            self.done = True
            state = np.random.get_state()
            self.trace.append('stream {} {}'.format(hashlib.md5(state[1].tobytes()).hexdigest(), state[2]))
        except Exception as e:      # compared like any other outcome
            self.trace.append('raised ' + type(e).__name__)
            self.done = True
        self.state = np.random.get_state()


def alone(kind, number):
    r = Running(kind, number)
    while not r.done:
        r.advance()
    return r.trace


def isolated(fun):
    """The result of fun() (lists and strings) in a copy of this process, which is left as it was."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            text = json.dumps(fun()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(text)
            status = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise core.Inconclusive('a copy of the process ended with status {}'.format(status))
    return json.loads(text)


def main():
    """Runs the sessions listed in the file (kind, number) and writes their traces."""
    import tempfile
    from . import env

    class Ctx(object):
        scratch = sys.argv[2]
    env.setup(Ctx)
    todo = json.load(open(sys.argv[1]))
    with open(sys.argv[3], 'w') as f:
        json.dump([[k, n, alone(k, n)] for k, n in todo], f)


if __name__ == '__main__':
    main()
