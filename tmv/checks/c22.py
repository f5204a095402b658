"""C22: cliques and chains found are exactly the maximal ones."""
import itertools

PROPERTY = 'C22'
RULE = ('random directed graphs (densities from empty to complete, cycles, self loops, parallel transitions, chains '
        'hanging together, parts that cannot be reached, cocktail-party and disjoint clique graphs) over nodes of '
        'several types, colliding hashes included, built in several insertion orders, and conjugates of task graphs '
        'while they are compacted. Cliques are compared with a brute force over subsets (small graphs) or an '
        'independent enumeration without pivot (larger), chains with maximal paths of links. '
        'Non-trivial: distinct graphs.')


class Node(object):
    """Node with chosen hash, so that set orders and collisions vary."""

    def __init__(self, name, h):
        self.name, self.h = name, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Node) and self.name == other.name

    def __repr__(self):
        return 'n{}'.format(self.name)


def make_nodes(case, n):
    from task_models.task import AbstractAction
    kind = case.rng.choice(['int', 'str', 'node', 'collide', 'abstract', 'tuple'])
    if kind == 'int':
        return case.rng.sample(range(1000), n)
    if kind == 'str':
        return ['x{}'.format(i) for i in case.rng.sample(range(1000), n)]
    if kind == 'abstract':
        return [AbstractAction('x{}'.format(i)) for i in case.rng.sample(range(1000), n)]
    if kind == 'tuple':
        return [(i, i) for i in range(n)]
    return [Node(i, case.rng.randrange(3) if kind == 'collide' else case.rng.getrandbits(40)) for i in range(n)]


# -- references ------------------------------------------------------------
def brute_cliques(adj):
    """adj: list of sets of indices."""
    n = len(adj)
    found = []
    for mask in range(1, 1 << n):
        s = [i for i in range(n) if mask >> i & 1]
        if len(s) < 2 or any(j not in adj[i] for i, j in itertools.combinations(s, 2)):
            continue
        inside = set(s)
        if any(inside <= adj[v] for v in range(n) if v not in inside):
            continue
        found.append(frozenset(s))
    return set(found)


def grow_cliques(adj):
    """Enumeration by vertex insertion: maximal cliques of the graph of the first k vertices."""
    cliques = set()
    for v in range(len(adj)):
        nb = frozenset(u for u in adj[v] if u < v)
        cand = {c & nb | {v} for c in cliques} | {frozenset([v])}
        cliques = {c for c in cliques | cand if not any(c < d for d in cliques | cand)}
    return {c for c in cliques if len(c) > 1}


def chain_reference(n, arcs, initial):
    """Maximal paths of links, reachable from initial; initial must have no predecessor."""
    succ = [set() for _ in range(n)]
    pred = [set() for _ in range(n)]
    for u, v in arcs:
        succ[u].add(v)
        pred[v].add(u)
    reach, todo = {initial}, [initial]
    while todo:
        for v in succ[todo.pop()]:
            if v not in reach:
                reach.add(v)
                todo.append(v)
    link = {u: v for u in range(n) for v in succ[u] if succ[u] == {v} and pred[v] == {u} and u != v}
    back = {v: u for u, v in link.items()}
    chains = set()
    for u in reach:
        if u in link and u not in back:
            c = [u]
            while c[-1] in link:
                c.append(link[c[-1]])
            chains.add(tuple(c))
    return chains


# -- graphs ----------------------------------------------------------------
def random_arcs(case, n):
    """Set of pairs over range(n), by one of several shapes."""
    rng = case.rng
    shape = rng.choice(['uniform', 'uniform', 'symmetric', 'chains', 'cliques', 'cocktail', 'tree', 'cycle', 'complete',
                        'mixed'])
    arcs = set()
    p = rng.choice([.05, .1, .2, .4, .7, .9])
    if shape in ('uniform', 'mixed'):
        arcs |= {(u, v) for u in range(n) for v in range(n) if rng.random() < p}
    if shape in ('symmetric', 'mixed'):
        for u in range(n):
            for v in range(u):
                if rng.random() < p:
                    arcs |= {(u, v), (v, u)}
    if shape in ('chains', 'mixed'):
        order = rng.sample(range(n), n)
        for u, v in zip(order, order[1:]):
            if rng.random() < .8:
                arcs.add((u, v))
        for _ in range(rng.randint(0, 3)):
            if n:
                arcs.add((rng.randrange(n), rng.randrange(n)))
    if shape == 'cliques':
        for _ in range(rng.randint(1, 4)):
            c = rng.sample(range(n), rng.randint(0, min(n, 5)))
            arcs |= {(u, v) for u in c for v in c if u != v}
    if shape in ('cocktail', 'complete'):
        arcs |= {(u, v) for u in range(n) for v in range(n)
                 if u != v and (shape == 'complete' or u // 2 != v // 2)}
    if shape == 'tree':
        for v in range(1, n):
            arcs.add((rng.randrange(max(0, v - 2), v), v))
    if shape == 'cycle' and n:
        k = rng.randint(1, n)
        arcs |= {(i, (i + 1) % k) for i in range(k)}
        if n > k:
            arcs.add((k, rng.randrange(k)))
    if rng.random() < .3:
        arcs |= {(u, u) for u in range(n) if rng.random() < .3}
    elif rng.random() < .5:
        arcs = {(u, v) for u, v in arcs if u != v}
    return arcs


def build(case, nodes, arcs, initial):
    """A conjugate graph over the nodes; initial is the index standing for the initial marker (or None)."""
    from task_models.task import ConjugateTaskGraph
    g = ConjugateTaskGraph()
    if initial is not None:
        if case.rng.random() < .5:
            nodes[initial] = g.initial
        else:
            g.initial = nodes[initial]
    trans = []
    for u, v in sorted(arcs):
        for l in case.rng.sample(['', 'x', 1, ('s',)], case.rng.choice([1, 1, 1, 2, 3])):
            trans.append((u, l, v))
    case.rng.shuffle(trans)
    for u, l, v in trans:
        g.add_transition(nodes[u], l, nodes[v])
    if trans and case.rng.random() < .3:
        # transitions that are removed again must not count, and their nodes neither
        extra = [(case.rng.randrange(len(nodes)), 'gone', case.rng.randrange(len(nodes))) for _ in range(3)]
        extra = set(extra)
        for u, l, v in extra:
            g.add_transition(nodes[u], l, nodes[v])
        for u, l, v in extra:
            g.remove_transition(nodes[u], l, nodes[v])
    return g, set(trans)


def snapshot(g, index):
    return (sorted((index[u], repr(l), index[v]) for u, l, v in g.all_transitions()), id(g.initial), id(g.terminal))


def check_cliques(case, found, expected, index, what):
    got = []
    for c in found:
        c = list(c)
        ids = [index[x] for x in c]
        case.check(len(ids) == len(set(ids)), '{}: clique with repeated nodes {}', what, c)
        got.append(frozenset(ids))
    case.check(len(got) == len(set(got)), '{}: a clique is reported twice: {}', what, got)
    got = set(got)
    case.check(got == expected, '{}: missing {}, unexpected {}', what, sorted(map(sorted, expected - got))[:5],
               sorted(map(sorted, got - expected))[:5])
    case.event('cliques', len(expected))
    case.event('clique-search')


def check_chains(case, found, expected, index, what):
    got = []
    for c in found:
        got.append(tuple(index[x] for x in c))
    case.check(len(got) == len(set(got)), '{}: a chain is reported twice: {}', what, got)
    got = set(got)
    case.check(got == expected, '{}: missing {}, unexpected {}', what, sorted(expected - got)[:5],
               sorted(got - expected)[:5])
    case.event('chains', len(expected))
    case.event('chain-search')


def mutual(n, arcs):
    return [{v for v in range(n) if v != u and (u, v) in arcs and (v, u) in arcs} for u in range(n)]


def graphs(case):
    n = case.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
    arcs = random_arcs(case, n)
    initial = case.rng.randrange(n) if n and case.rng.random() < .9 else None
    if initial is not None and case.rng.random() < .8:
        arcs = {(u, v) for u, v in arcs if v != initial}
    case.note(nodes=n, arcs=sorted(arcs), initial=initial)
    case.key(n, sorted(arcs), initial)
    reference = None
    for _ in range(2):
        nodes = make_nodes(case, n)
        g, trans = build(case, nodes, arcs, initial)
        index = {x: i for i, x in enumerate(nodes)}
        before = snapshot(g, index)
        adj = mutual(n, arcs)
        if reference is None:
            reference = brute_cliques(adj)
            case.equal(grow_cliques(adj), reference, 'independent enumerations of cliques')
        check_cliques(case, g.get_max_cliques(), reference, index, 'get_max_cliques')
        case.equal(snapshot(g, index), before, 'graph after searching cliques')
        chains = list(g.get_max_chains())
        case.equal(snapshot(g, index), before, 'graph after searching chains')
        if initial is None:
            # The marker is not part of the graph: nothing is reachable from it
            case.equal(chains, [], 'chains of a graph without its initial marker')
            case.event('no-initial')
        elif not any(v == initial for _, v in arcs):
            check_chains(case, chains, chain_reference(n, arcs, initial), index, 'get_max_chains')
        else:
            case.event('initial-with-predecessor')
        # Same question again: same answer
        check_cliques(case, g.get_max_cliques(), reference, index, 'second get_max_cliques')
        again = list(g.get_max_chains())
        case.equal(sorted([index[x] for x in c] for c in again), sorted([index[x] for x in c] for c in chains),
                   'second get_max_chains') if initial is None or not any(v == initial for _, v in arcs) else None


def dictionaries(case):
    """max_cliques on symmetric dictionaries."""
    from task_models.task import max_cliques
    n = case.rng.choice([0, 1, 3, 5, 8, 12, 16])
    arcs = random_arcs(case, n)
    loops = {u for u in range(n) if (u, u) in arcs}
    adj = [set() for _ in range(n)]
    for u, v in arcs:
        if u != v:
            adj[u].add(v)
            adj[v].add(u)
    case.note(nodes=n, adjacency=adj)
    case.key(n, sorted(map(sorted, adj)))
    expected = grow_cliques(adj)
    if n <= 8:
        case.equal(brute_cliques(adj), expected, 'independent enumerations of cliques')
    for _ in range(2):
        nodes = make_nodes(case, n)
        order = case.rng.sample(range(n), n)
        graph = {}
        for i in order:
            nb = [nodes[j] for j in adj[i]] + ([nodes[i]] if i in loops else [])
            case.rng.shuffle(nb)
            graph[nodes[i]] = set(nb)
        copy = {k: set(v) for k, v in graph.items()}
        check_cliques(case, max_cliques(graph), expected, {x: i for i, x in enumerate(nodes)}, 'max_cliques')
        case.check(graph == copy and list(graph) == list(copy), 'max_cliques changed the graph')


def larger(case):
    n = case.rng.choice([15, 25, 40])
    arcs = random_arcs(case, n)
    if len(arcs) > n * n // 2:      # keep the number of cliques manageable
        arcs = set(case.rng.sample(sorted(arcs), n * n // 3))
    initial = case.rng.randrange(n)
    arcs = {(u, v) for u, v in arcs if v != initial}
    if case.rng.random() < .6:
        order = [initial] + [i for i in case.rng.sample(range(n), n) if i != initial]
        keep = {(u, v) for u, v in arcs if case.rng.random() < .02}
        arcs = keep | {(u, v) for u, v in zip(order, order[1:]) if case.rng.random() < .95}
        for _ in range(case.rng.randint(0, 4)):
            arcs.add((initial, case.rng.choice(order[1:])))
    adj = mutual(n, arcs)
    nodes = make_nodes(case, n)
    g, _ = build(case, nodes, arcs, initial)
    index = {x: i for i, x in enumerate(nodes)}
    case.note(nodes=n, arcs=len(arcs))
    case.key(n, sorted(arcs))
    check_cliques(case, g.get_max_cliques(), grow_cliques(adj), index, 'get_max_cliques on a large graph')
    check_chains(case, g.get_max_chains(), chain_reference(n, arcs, initial), index, 'get_max_chains on a large graph')
    case.event('large-graph')


def long_chains(case):
    """Chains of thousands of nodes and their cycles."""
    from task_models.task import ConjugateTaskGraph, AbstractAction
    n = case.rng.choice([1500, 3000])
    g = ConjugateTaskGraph()
    nodes = [g.initial] + [AbstractAction('a{}'.format(i)) for i in range(n)]
    arcs = {(i, i + 1) for i in range(n)}
    for _ in range(case.rng.randint(0, 3)):
        arcs.add((case.rng.randrange(n), case.rng.randint(1, n)))
    for u, v in case.rng.sample(sorted(arcs), len(arcs)):
        g.add_transition(nodes[u], 's{}'.format(u), nodes[v])
    index = {x: i for i, x in enumerate(nodes)}
    check_chains(case, g.get_max_chains(), chain_reference(n + 1, arcs, 0), index, 'get_max_chains')
    case.key(n, sorted(arcs - {(i, i + 1) for i in range(n)}))


def pipeline(case):
    """Extraction of a hierarchy from demonstrations: searches on graphs while they are compacted."""
    from task_models.task import TaskGraph, MetaAction, AbstractAction
    from task_models.state import State

    class History(State):
        def __init__(self, h, ordered):
            self.h = tuple(h) if ordered else tuple(sorted(h))

        def __hash__(self):
            return hash(self.h)

        def __eq__(self, other):
            return isinstance(other, History) and self.h == other.h

    ordered = case.rng.random() < .5
    names = ['a{}'.format(i) for i in range(case.rng.randint(1, 6))]
    words = []
    blocks = []
    rest = list(names)
    while rest:
        k = case.rng.randint(1, len(rest))
        blocks.append(rest[:k])
        rest = rest[k:]
    g = TaskGraph()
    for _ in range(case.rng.randint(1, 5)):
        word = [x for b in case.rng.sample(blocks, len(blocks)) for x in b]
        words.append(word)
        path = [History([], ordered)]
        for i, w in enumerate(word):
            path += [AbstractAction(w), History(word[:i + 1], ordered)]
        g.add_path(path)
    case.note(words=words, ordered=ordered)
    case.key(words, ordered)
    try:
        c = g.conjugate()
    except ValueError:
        return
    for step in range(30):
        nodes = sorted(c.all_nodes(), key=repr)
        index = {x: i for i, x in enumerate(nodes)}
        n = len(nodes)
        arcs = {(index[u], index[v]) for u, _, v in c.all_transitions()}
        cliques = list(c.get_max_cliques())
        chains = list(c.get_max_chains())
        check_cliques(case, cliques, grow_cliques(mutual(n, arcs)), index, 'cliques of step {}'.format(step))
        if c.initial in index and not any(v == index[c.initial] for _, v in arcs):
            check_chains(case, chains, chain_reference(n, arcs, index[c.initial]), index,
                         'chains of step {}'.format(step))
        if chains:
            chain = case.rng.choice(chains)
            c.compact(chain, MetaAction('sequence', chain))
        elif cliques:
            clique = case.rng.choice(cliques)
            c.compact(clique, MetaAction('parallel', clique))
        else:
            break
        case.event('pipeline-step')


def run(ctx):
    ctx.cases('graphs', ctx.n(3200, 20000), graphs, cpu=20)
    ctx.cases('dictionaries', ctx.n(1600, 6400), dictionaries)
    ctx.cases('larger', ctx.n(480, 1920), larger)
    ctx.cases('long-chains', ctx.n(64, 256), long_chains)
    ctx.cases('pipeline', ctx.n(1200, 4800), pipeline)
    for e, m in (('cliques', 500), ('chains', 300), ('clique-search', 1000), ('chain-search', 400),
                 ('initial-with-predecessor', 20), ('no-initial', 20), ('large-graph', 60), ('pipeline-step', 200)):
        ctx.require(e, m)
