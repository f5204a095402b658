"""C21: the conjugate graph is exact."""
import collections

from .. import graphgen

PROPERTY = 'C21'
RULE = ('random deterministic task graphs, built from random paths or transition by transition with arbitrary initial '
        'and terminal states (self loops, cycles, terminal states with outgoing transitions, states that are both), '
        'edited afterwards; transitions and markers of the conjugate graph are compared with the formula evaluated on '
        'keys, and walks of accepted paths are looked up. Non-deterministic graphs must be refused. '
        'Non-trivial: distinct graphs.')
ASSUMPTIONS = ['no action of the task is equal to one of the markers (abstract actions named initial or terminal)']


def triples(world, graph):
    from .c20 import identity
    return [(world.key_of(s), identity(world, a), world.key_of(d)) for s, a, d in graph.all_transitions()]


def node_key(world, graph, node):
    from .c20 import identity
    if node is graph.initial:
        return 'INITIAL'
    if node is graph.terminal:
        return 'TERMINAL'
    return identity(world, node)


def reference(transitions, initial, terminal):
    out = collections.defaultdict(set)
    for s, a, d in transitions:
        out[s].add((a, d))
    r = set()
    for s in initial:
        for a, _ in out[s]:
            r.add(('INITIAL', s, a))
    for s, a, d in transitions:
        for b, _ in out[d]:
            r.add((a, d, b))
        if d in terminal:
            r.add((a, d, 'TERMINAL'))
    return r


def random_graph(case, world, deterministic=True):
    from task_models.task import TaskGraph
    from . import c20
    rng = case.rng
    pool = [world.random_action(rng.choice(world.keys), rng.choice(world.keys)) for _ in range(rng.randint(1, 6))]
    g, ref = TaskGraph(), c20.Reference(world)

    def allowed(k1, a, k2):
        if not deterministic:
            return True
        i = world.action_identity(a)
        return all(not (s == k1 and b == i) or d == k2 for s, b, d in ref.transitions)
    if rng.random() < .5:
        for _ in range(rng.randint(1, 5)):
            path = world.valid_path(rng.choice([0, 1, 2, 4, 7]), actions=pool)
            cut = [path[0]]
            for i in range(0, len(path) - 2, 2):
                k1, a, k2 = path[i:i + 3]
                before = set(ref.transitions)
                for j in range(0, len(cut) - 2, 2):
                    ref.transitions.add(ref.triple(*cut[j:j + 3]))
                ok = allowed(k1, a, k2)
                ref.transitions = before
                if not ok:
                    break
                cut += [a, k2]
            tagged = c20.tag(cut)
            g.add_path(c20.objects(world, tagged))
            ref.add(tagged)
        case.event('graph-from-paths')
    else:
        for _ in range(rng.randint(0, 20)):
            k1, a, k2 = rng.choice(world.keys), rng.choice(pool), rng.choice(world.keys)
            if allowed(k1, a, k2):
                g.add_transition(world.state(k1), world.action(a), world.state(k2))
                ref.transitions.add(ref.triple(k1, a, k2))
        for k in world.keys:
            if rng.random() < .4:
                g.initial.add(world.state(k))
                ref.initial.add(k)
            if rng.random() < .4:
                g.terminal.add(world.state(k))
                ref.terminal.add(k)
        for t in sorted(ref.transitions, key=repr):
            if rng.random() < .15:
                for s, a, d in list(g.all_transitions()):
                    if (world.key_of(s), c20.identity(world, a), world.key_of(d)) == t:
                        g.remove_transition(s, a, d)
                ref.transitions.remove(t)
        case.event('graph-from-transitions')
    return g, ref, pool


def graphs(case):
    from . import c20
    world = graphgen.World(case)
    g, ref, pool = random_graph(case, world, deterministic=case.rng.random() < .7)
    case.note(transitions=sorted(map(repr, ref.transitions))[:30], initial=sorted(map(repr, ref.initial)),
              terminal=sorted(map(repr, ref.terminal)))
    case.key(sorted(map(repr, ref.transitions)), sorted(map(repr, ref.initial)), sorted(map(repr, ref.terminal)))
    if not ref.deterministic():
        case.raises(ValueError, g.conjugate, 'conjugate of a non-deterministic graph')
        case.event('refused')
        c20.compare(case, world, g, ref, 'graph after refused conjugation')
        return
    c = g.conjugate()
    c20.compare(case, world, g, ref, 'graph after conjugation')
    check_conjugate(case, world, ref, c)
    walks(case, world, g, ref, pool, c)
    # Changes of the conjugate do not reach the graph, nor conversely
    keep = set(ref.transitions), set(ref.initial), set(ref.terminal)
    for t in list(c.all_transitions())[:2]:
        c.remove_transition(*t)
    if list(c.all_transitions()):
        c.compact([c.initial, next(iter(c.all_transitions()))[2]], 'new node')
    c20.compare(case, world, g, ref, 'graph after editing its conjugate')
    case.check((ref.transitions, ref.initial, ref.terminal) == keep, 'reference changed')
    # The graph keeps working: extend it and conjugate again
    k1, k2 = case.rng.choice(world.keys), case.rng.choice(world.keys)
    extra = ('abstract', 'extra')
    c2 = g.conjugate()
    before = node_triples(case, world, c2)
    g.add_transition(world.state(k1), world.action(extra), world.state(k2))
    case.equal(node_triples(case, world, c2), before, 'conjugate after editing the graph')
    ref.transitions.add(ref.triple(k1, extra, k2))
    check_conjugate(case, world, ref, g.conjugate())
    case.event('conjugated-twice')


def node_triples(case, world, c):
    got = [(node_key(world, c, u), world.key_of(s), node_key(world, c, v)) for u, s, v in c.all_transitions()]
    case.check(len(got) == len(set(got)), 'a transition of the conjugate graph is reported twice: {}', got)
    return set(got)


def check_conjugate(case, world, ref, c):
    from task_models.task import ConjugateTaskGraph
    case.check(isinstance(c, ConjugateTaskGraph), 'the conjugate is a {}', type(c).__name__)
    got = node_triples(case, world, c)
    exp = reference(ref.transitions, ref.initial, ref.terminal)
    case.check(got <= exp, 'the conjugate graph has unexpected transitions {}',
               sorted(map(repr, got - exp))[:5])
    case.check(exp <= got, 'the conjugate graph misses transitions {}', sorted(map(repr, exp - got))[:5])
    case.event('conjugated')
    case.event('conjugate-transitions', len(exp))
    if any(d in ref.terminal and any(s2 == d for s2, _, _ in ref.transitions) for _, _, d in ref.transitions):
        case.event('terminal-with-successors')
    # Markers belong to instances only
    case.equal([str(ConjugateTaskGraph.initial), str(ConjugateTaskGraph.terminal)], ['initial', 'terminal'],
               'markers of the class')


def walks(case, world, g, ref, pool, c):
    """Accepted paths with actions read as walks from marker to marker."""
    out = collections.defaultdict(list)
    for s, a, d in g.all_transitions():
        out[world.key_of(s)].append((a, d))
    starts = [s for s in g.initial]
    for _ in range(5):
        if not starts:
            return
        s = case.rng.choice(starts)
        path = [s]
        for _ in range(case.rng.randint(1, 10)):
            nxt = out[world.key_of(path[-1])]
            if not nxt:
                break
            a, d = case.rng.choice(nxt)
            path += [a, d]
        while len(path) > 1 and world.key_of(path[-1]) not in ref.terminal:
            path = path[:-2]
        if len(path) < 3:
            continue
        nodes = [c.initial] + path[1::2] + [c.terminal]
        for i, label in enumerate(path[::2]):
            case.check(c.has_transition(nodes[i], label, nodes[i + 1]),
                       'step {} of the accepted path {} is missing from the conjugate graph', i,
                       [str(x) for x in path[1::2]])
        case.event('walk')


def run(ctx):
    ctx.cases('graphs', ctx.n(6000, 24000), graphs)
    for e, m in (('conjugated', 500), ("refused", 20), ('walk', 200), ('terminal-with-successors', 100),
                 ('graph-from-paths', 100), ('graph-from-transitions', 100), ('conjugated-twice', 300)):
        ctx.require(e, m)
