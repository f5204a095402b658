"""C20: a task graph accepts exactly the paths it should."""
from .. import graphgen

PROPERTY = 'C20'
RULE = ('random states (vectors of several numeric types, boards, user-defined states with colliding hashes), actions '
        '(pre/post-conditions, placing, abstract, meta and user-defined), valid paths from random walks and '
        'corrupted ones, up to thousands of steps; graphs from random sequences of accepted and refused additions, '
        'queried with added, spliced, truncated, and foreign paths. Membership and determinism are '
        'compared with sets of keys. Non-trivial: distinct paths and graphs.')


def reference_ok(world, path):
    """Whether a sequence of tagged elements ('s', key) / ('a', akey) / ('j', object) is a valid path."""
    if not path:
        return True
    if len(path) % 2 == 0:
        return False
    for i, (tag, _) in enumerate(path):
        if tag != ('s' if i % 2 == 0 else 'a'):
            return False
    return all(world.admits(path[i + 1][1], path[i][1], path[i + 2][1]) for i in range(0, len(path) - 2, 2))


def objects(world, path):
    r = [world.state(x) if t == 's' else world.action(x) if t == 'a' else x for t, x in path]
    return tuple(r) if world.rng.random() < .3 else r


def tag(path):
    return [('s' if i % 2 == 0 else 'a', x) for i, x in enumerate(path)]


class Lookalike(object):
    """Has the methods of a state and an action but is neither."""
    name = 'lookalike'

    def check(self, before, after):
        return True

    def get_features(self):
        import numpy as np
        return np.zeros(1)


def corrupt(case, world, path):
    """One to three edits of a tagged path."""
    rng = case.rng
    path = list(path)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        c = rng.randrange(8)
        i = rng.randrange(len(path)) if path else 0
        if not path or c == 0:
            path.insert(rng.randint(0, len(path)), ('s', rng.choice(world.keys)))
        elif c == 1:
            path.insert(rng.randint(0, len(path)), ('a', world.random_action()))
        elif c == 2:
            path.pop(i)
        elif c == 3:
            path[i] = ('j', rng.choice([None, 3, 'state', Lookalike(), (), 0.]))
        elif c == 4:
            path[i] = ('s', rng.choice(world.keys))
        elif c == 5:
            path[i] = ('a', world.random_action())
        elif c == 6:
            j = rng.randrange(len(path))
            path[i], path[j] = path[j], path[i]
        else:
            path = path[:i] if rng.random() < .5 else path[i:]
    return path


def describe(path):
    return [(t, x if t != 'j' else repr(x)) for t, x in path[:40]]


# -- check_path -----------------------------------------------------------
def paths(case):
    from task_models.task import check_path, split_path
    world = graphgen.World(case)
    for _ in range(8):
        length = case.rng.choice([0, 0, 1, 1, 2, 3, 5, 12, 40])
        path = tag(world.valid_path(length)) if case.rng.random() < .95 else []
        if case.rng.random() < .6:
            path = corrupt(case, world, path)
        expected = reference_ok(world, path)
        case.note(path=describe(path), expected=expected)
        obj = objects(world, path)
        got = check_path(obj)
        case.equal(bool(got), expected, 'check_path')
        case.event('path-accepted' if expected else 'path-refused')
        case.key(world.kind, describe(path))
        if expected and len(obj):
            split = split_path(obj)
            case.equal(len(split), len(path) // 2, 'steps of a path')
            for n, (s1, a, s2) in enumerate(split):
                case.check(s1 is obj[2 * n] and a is obj[2 * n + 1] and s2 is obj[2 * n + 2],
                           'step {} of the path is not made of its elements', n)


def long_paths(case):
    from task_models.task import check_path, TaskGraph
    world = graphgen.World(case, kind=case.rng.choice(['vec', 'own']))
    n = case.rng.choice([400, 1100, 3000]) if case.ctx.tier == 'quick' else case.rng.choice([400, 1100, 3000, 20000])
    pool = [world.random_action() for _ in range(5)]
    path = tag(world.valid_path(n, actions=pool))
    corrupted = False
    if case.rng.random() < .5:
        # A single fault, often close to the end
        where = case.rng.choice([len(path) - 1, len(path) - 2, len(path) - 3, case.rng.randrange(len(path)), 1])
        k = where
        path[k] = case.rng.choice([('j', None), ('s', case.rng.choice(world.keys)), ('a', world.random_action())])
        corrupted = True
    expected = reference_ok(world, path)
    case.note(length=n, corrupted=corrupted, expected=expected)
    obj = objects(world, path)
    case.equal(bool(check_path(obj)), expected, 'check_path of {} steps'.format(n))
    case.event('long-path')
    case.key(n, corrupted, repr(path[:20]))
    g = TaskGraph()
    if expected:
        g.add_path(obj)
        case.check(g.has_path(objects(world, path)), 'the path of {} steps is not a member after adding it', n)
    else:
        case.raises(ValueError, lambda: g.add_path(obj), 'adding an invalid path of {} steps'.format(n))
        case.check(not list(g.all_transitions()) and not g.initial and not g.terminal,
                   'an invalid path changed the graph')


# -- task graph -------------------------------------------------------------
class Reference(object):

    def __init__(self, world):
        self.world = world
        self.initial, self.terminal, self.transitions = set(), set(), set()

    def triple(self, k1, a, k2):
        return (k1, self.world.action_identity(a), k2)

    def add(self, path):
        keys = [x for _, x in path]
        if keys:
            self.initial.add(keys[0])
            self.terminal.add(keys[-1])
        for i in range(0, len(keys) - 2, 2):
            self.transitions.add(self.triple(*keys[i:i + 3]))

    def has(self, path):
        keys = [x for _, x in path]
        return not keys or (keys[0] in self.initial and keys[-1] in self.terminal and all(
            self.triple(*keys[i:i + 3]) in self.transitions for i in range(0, len(keys) - 2, 2)))

    def deterministic(self):
        seen = {}
        for (s, a, d) in self.transitions:
            if seen.setdefault((s, a), d) != d:
                return False
        return True


def identity(world, action):
    """Identity of an action object, from its own data."""
    from task_models.action import PrePostConditionAction, MatchAllCondition
    from task_models.task import MetaAction, AbstractAction
    if isinstance(action, PrePostConditionAction):
        c = [None if isinstance(c, MatchAllCondition) else
             world.condition_identity((tuple(c.mask), tuple(c.value))) for c in (action.pre, action.post)]
        return ('cond', c[0], c[1])
    if isinstance(action, MetaAction):
        return ('meta', action.kind, tuple(a.name for a in action.actions))
    if isinstance(action, AbstractAction):
        return ('abstract', action.name)
    return ('own', action.name)


def content(world, graph):
    """Content of the graph in terms of keys, checking that nothing is reported twice."""
    t = [(world.key_of(s), identity(world, a), world.key_of(d)) for s, a, d in graph.all_transitions()]
    i = [world.key_of(s) for s in graph.initial]
    e = [world.key_of(s) for s in graph.terminal]
    return t, i, e


def compare(case, world, graph, ref, what):
    t, i, e = content(world, graph)
    for got, exp, name in ((t, ref.transitions, 'transitions'), (i, ref.initial, 'initial states'),
                           (e, ref.terminal, 'terminal states')):
        case.check(len(got) == len(set(got)), '{}: some {} are reported twice: {}', what, name, got)
        case.check(set(got) == exp, '{}: {} are {}, expected {}', what, name, sorted(got, key=repr)[:10],
                   sorted(exp, key=repr)[:10])


def queries(case, world, added, pool):
    """Paths to ask for: added ones, splices, truncations, random ones."""
    rng = case.rng
    for _ in range(5):
        c = rng.randrange(6)
        if c == 0 and added:
            yield rng.choice(added)
        elif c == 1 and added:
            p = rng.choice(added)
            k = 2 * rng.randint(0, len(p) // 2)
            yield p[:k + 1] if rng.random() < .5 else p[k:]
        elif c in (2, 3) and added:
            # walk along recorded steps, changing paths at common states
            p, i, r = rng.choice(added), 0, []
            for _ in range(12):
                if i >= len(p):
                    break
                r.append(p[i])
                if i + 2 >= len(p):
                    break
                r.append(p[i + 1])
                options = [(q, j) for q in added for j in range(0, len(q), 2) if q[j] == p[i + 2]]
                p, i = rng.choice(options)
            yield r if len(r) % 2 == 1 else r[:-1]
        elif c == 4 and added:
            p = list(rng.choice(added))
            if p:
                i = rng.randrange(len(p))
                p[i] = ('s', rng.choice(world.keys)) if i % 2 == 0 else ('a', rng.choice(pool))
            yield p
        else:
            yield tag(world.valid_path(rng.randint(0, 4), actions=pool)) if rng.random() < .9 else []


def graphs(case):
    from task_models.task import TaskGraph
    world = graphgen.World(case)
    pool = [world.random_action(case.rng.choice(world.keys), case.rng.choice(world.keys))
            for _ in range(case.rng.randint(2, 6))]
    graph, ref = TaskGraph(), Reference(world)
    added = []
    compare(case, world, graph, ref, 'new graph')
    for step in range(case.rng.randint(1, 8)):
        path = tag(world.valid_path(case.rng.choice([0, 1, 2, 3, 6]), actions=pool))
        if case.rng.random() < .1:
            path = []
        if case.rng.random() < .35:
            path = corrupt(case, world, path)
        ok = reference_ok(world, path)
        case.note(step=step, path=describe(path), valid=ok)
        obj = objects(world, path)
        if ok:
            graph.add_path(obj)
            ref.add(path)
            added.append(path)
            case.event('path-added')
        else:
            case.raises(ValueError, lambda: graph.add_path(obj), 'adding an invalid path')
            case.event('path-rejected')
        compare(case, world, graph, ref, 'after adding {}'.format(describe(path)))
        for p in added:
            case.check(graph.has_path(objects(world, p)), 'path added earlier is not a member: {}', describe(p))
        for q in queries(case, world, added, pool):
            case.note(query=describe(q))
            if not reference_ok(world, q):
                try:
                    case.check(not graph.has_path(objects(world, q)), 'an invalid path is a member: {}', describe(q))
                except ValueError:
                    pass
                case.event('invalid-query')
                continue
            expected = ref.has(q)
            case.equal(bool(graph.has_path(objects(world, q))), expected, 'membership of {}'.format(describe(q)))
            case.event('member' if expected else 'non-member')
            for i in range(0, len(q) - 2, 2):
                k1, a, k2 = [x for _, x in q[i:i + 3]]
                case.equal(bool(graph.has_transition(world.state(k1), world.action(a), world.state(k2))),
                           ref.triple(k1, a, k2) in ref.transitions, 'has_transition of {}'.format((k1, a, k2)))
        determinism(case, world, graph, ref)
    compare(case, world, graph, ref, 'after queries')
    case.check(graph.has_path([]) and graph.has_path(()), 'the empty path is not a member')
    case.key(world.kind, sorted(map(repr, ref.transitions)), sorted(map(repr, ref.initial)))


def determinism(case, world, graph, ref):
    try:
        graph.check_only_deterministic_transitions()
        got = True
    except ValueError:
        got = False
    case.check(got == ref.deterministic(), 'the determinism check {} a graph which is {}deterministic: {}',
               'accepts' if got else 'refuses', '' if ref.deterministic() else 'not ',
               sorted(map(repr, ref.transitions)))
    case.event('deterministic' if got else 'non-deterministic')


def edited(case):
    """Determinism of graphs also built and changed transition by transition."""
    from task_models.task import TaskGraph
    world = graphgen.World(case)
    pool = [world.random_action() for _ in range(case.rng.randint(1, 5))]
    graph, ref = TaskGraph(), Reference(world)
    for _ in range(case.rng.randint(1, 25)):
        k1, a, k2 = case.rng.choice(world.keys), case.rng.choice(pool), case.rng.choice(world.keys)
        t = ref.triple(k1, a, k2)
        if case.rng.random() < .7:
            graph.add_transition(world.state(k1), world.action(a), world.state(k2))
            ref.transitions.add(t)
        elif t in ref.transitions:
            graph.remove_transition(world.state(k1), world.action(a), world.state(k2))
            ref.transitions.remove(t)
        determinism(case, world, graph, ref)
        compare(case, world, graph, ref, 'after an edit')
    case.key(sorted(map(repr, ref.transitions)))


def run(ctx):
    ctx.cases('paths', ctx.n(1250, 6000), paths)
    ctx.cases('long-paths', ctx.n(80, 320), long_paths)
    ctx.cases('graphs', ctx.n(1250, 6000), graphs)
    ctx.cases('edited', ctx.n(750, 3000), edited)
    for e, m in (('path-accepted', 300), ('path-refused', 300), ('long-path', 16), ('path-added', 300),
                 ('path-rejected', 100), ('member', 300), ('non-member', 300), ('deterministic', 100),
                 ('non-deterministic', 100)):
        ctx.require(e, m)
