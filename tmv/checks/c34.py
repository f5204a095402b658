"""C34: hierarchies are recovered from demonstrations."""
import itertools

import numpy as np

PROPERTY = 'C34'
RULE = ('random hierarchies alternating sequences and parallels (children of a parallel are done one after the other, in '
        'any order) are demonstrated by paths covering every succession of actions, over states of several kinds; the '
        'conjugate graph is compacted, chains and cliques being chosen at random, after each compaction of whole '
        'parallels every demonstration must still be a walk from marker to marker, and the hierarchy left at the end must be the '
        'original one, have the same orders when converted to a task, and keep the demonstrations. '
        'Non-trivial: distinct (hierarchy, demonstrations, choices).')


def run(ctx):
    ctx.cases('recovered', ctx.n(6000, 150000), recovered)
    ctx.cases('large', ctx.n(300, 6000), large)
    ctx.cases('walks', ctx.n(2000, 40000), walks)
    ctx.require('hierarchies recovered', 700)
    ctx.require('chains compacted', 1000)
    ctx.require('cliques compacted', 500)
    ctx.require('demonstrations read', 2000)
    ctx.require('orders compared', 1500)
    ctx.require('exact orders', 300)


# -- hierarchies as nested (kind, children); leaves are names -----------------
def random_tree(r, kind, n):
    if n == 1:
        return 'leaf'
    k = r.randint(2, min(n, 4))
    cuts = sorted(r.sample(range(1, n), k - 1))
    other = 'parallel' if kind == 'sequence' else 'sequence'
    return (kind, [random_tree(r, other, b - a) for a, b in zip([0] + cuts, cuts + [n])])


def label(t, names):
    return (t[0], [label(x, names) for x in t[1]]) if isinstance(t, tuple) else next(names)


def leaves(t):
    return [y for x in t[1] for y in leaves(x)] if isinstance(t, tuple) else [t]


def n_orders(t):
    if not isinstance(t, tuple):
        return 1
    n = 1
    for i, x in enumerate(t[1]):
        n *= n_orders(x) * (i + 1 if t[0] == 'parallel' else 1)
    return n


def orders(t):
    if not isinstance(t, tuple):
        return [[t]]
    subs = [orders(x) for x in t[1]]
    perms = itertools.permutations(range(len(subs))) if t[0] == 'parallel' else [range(len(subs))]
    return [sum(c, []) for p in perms for c in itertools.product(*[subs[i] for i in p])]


def random_order(r, t):
    if not isinstance(t, tuple):
        return [t]
    subs = [random_order(r, x) for x in t[1]]
    if t[0] == 'parallel':
        r.shuffle(subs)
    return sum(subs, [])


def ends(t):
    """First and last actions, and successions of actions, over all orders."""
    if not isinstance(t, tuple):
        return {t}, {t}, set()
    parts = [ends(x) for x in t[1]]
    pairs = set().union(*[p[2] for p in parts])
    if t[0] == 'sequence':
        for p, q in zip(parts, parts[1:]):
            pairs |= {(a, b) for a in p[1] for b in q[0]}
        return parts[0][0], parts[-1][1], pairs
    for p, q in itertools.permutations(parts, 2):
        pairs |= {(a, b) for a in p[1] for b in q[0]}
    return set().union(*[p[0] for p in parts]), set().union(*[p[1] for p in parts]), pairs


def demonstrations(r, t, extra):
    """Random orders until all first and last actions and all successions are shown."""
    first, last, pairs = ends(t)
    shown, out = set(), []
    todo = len(first) + len(last) + len(pairs)
    tries = 0
    while len(shown) < todo:
        tries += 1
        if tries > 4000:
            return None
        o = random_order(r, t)
        new = {('first', o[0]), ('last', o[-1])} | set(zip(o, o[1:]))
        if not new <= shown:
            shown |= new
            out.append(o)
    return out + [random_order(r, t) for _ in range(extra)]


def canonical(t):
    """Nested sequences and parallels flattened, without order inside parallels."""
    if not isinstance(t, tuple):
        return t
    children = []
    for x in t[1]:
        x = canonical(x)
        if isinstance(x, tuple) and x[0] == t[0]:
            children.extend(x[1])
        else:
            children.append(x)
    return (t[0], tuple(children) if t[0] == 'sequence' else frozenset(children))


def strip(t, markers):
    if not isinstance(t, tuple):
        return None if t in markers else t
    children = [x for x in (strip(x, markers) for x in t[1]) if x is not None]
    return None if not children else children[0] if len(children) == 1 else (t[0], children)


# -- states -------------------------------------------------------------------
def state_maker(case, names):
    """Function of the actions done so far giving a state: remembers the order, only what is done, or has features."""
    from task_models.state import State, NDimensionalState
    kind = case.rng.choice(['history', 'done', 'features'])

    class Seen(State):

        def __init__(self, h):
            self.h = h

        def __hash__(self):
            return hash(self.h)

        def __eq__(self, other):
            return isinstance(other, Seen) and self.h == other.h

        def get_features(self):
            return np.array([len(self.h)])
    if kind == 'features':
        index = {x: i for i, x in enumerate(names)}

        def make(h):
            v = np.zeros(len(names), dtype=case.rng.choice([int, float]))
            v[[index[x] for x in h]] = 1
            return NDimensionalState(v)
        return kind, make
    if kind == 'done':
        return kind, lambda h: Seen(frozenset(h))
    return kind, lambda h: Seen(tuple(h))


def learn(case, demos, names):
    """Task graph of the demonstrations."""
    from task_models.task import TaskGraph, AbstractAction
    kind, make = state_maker(case, names)
    graph = TaskGraph()
    paths = []
    for d in demos:
        path = [make(())]
        for i, x in enumerate(d):
            path += [AbstractAction(x), make(d[:i + 1])]
        paths.append(path)
        graph.add_path(path)
    return kind, graph, paths


def read(a):
    """Nested names of an action."""
    from task_models.task import MetaAction
    return (a.kind, [read(x) for x in a.actions]) if isinstance(a, MetaAction) else a.name


class Reader(object):
    """Reads orders of actions as walks through a graph of nested actions."""

    def __init__(self, graph):
        self.trees = {n: read(n) for n in graph.all_nodes()}
        self.succ = {}
        for s, l, d in graph.all_transitions():
            self.succ.setdefault(s, set()).add(d)
        self.start, self.end = graph.initial, graph.terminal
        self.trees.setdefault(self.start, read(self.start))

    @staticmethod
    def consume(t, order, i):
        """Positions in the order after doing all of t from i."""
        if not isinstance(t, tuple):
            return {i + 1} if i < len(order) and order[i] == t else set()
        if t[0] == 'sequence':
            at = {i}
            for x in t[1]:
                at = {k for j in at for k in Reader.consume(x, order, j)}
            return at
        done = {(i, frozenset(range(len(t[1]))))}
        out = set()
        while done:
            j, left = done.pop()
            if not left:
                out.add(j)
            for c in left:
                done |= {(k, left - {c}) for k in Reader.consume(t[1][c], order, j)}
        return out

    def accepts(self, order):
        todo = [(self.start, j) for j in self.consume(self.trees[self.start], order, 0)]
        seen = set()
        while todo:
            n, i = todo.pop()
            if n == self.end and i == len(order):
                return True
            if (n, i) in seen:
                continue
            seen.add((n, i))
            for m in self.succ.get(n, ()):
                todo.extend((m, j) for j in self.consume(self.trees[m], order, i))
        return False


def parallels(t):
    """Sets of leaves of the parallels."""
    if not isinstance(t, tuple):
        return []
    return [p for x in t[1] for p in parallels(x)] + ([frozenset(leaves(t))] if t[0] == 'parallel' else [])


def extract(case, cg, t, demos, start, end):
    """Compacts until nothing is left to compact, watching the demonstrations.

    As long as only some children of a parallel are mutually connected, compacting them alone loses the orders in which
    the others come in between: the demonstrations are read as long as whole parallels are compacted."""
    from task_models.task import MetaAction
    r = case.rng
    mode = r.choice(['chains first', 'chains first', 'any', 'first found'])
    choices = []
    whole = set(parallels(t))
    reading = True
    watched = [[start] + d + [end] for d in r.sample(demos, min(len(demos), 6))]
    while cg.all_nodes():
        options = []
        chains = [('sequence', list(c)) for c in cg.get_max_chains()]
        cliques = [('parallel', c) for c in cg.get_max_cliques()]
        options = (chains or cliques) if mode == 'chains first' else chains + cliques
        if not options:
            break
        kind, nodes = options[0] if mode == 'first found' else r.choice(options)
        case.event('chains compacted' if kind == 'sequence' else 'cliques compacted')
        choices.append((kind, sorted(x.name for x in nodes)))
        before = cg.all_nodes()
        cg.compact(nodes, MetaAction(kind, nodes))
        case.check(not set(nodes) & cg.all_nodes(), 'compacted nodes remain in the graph')
        case.check(cg.all_nodes() <= before | {MetaAction(kind, nodes)}, 'nodes appeared')
        if kind == 'parallel':
            reading = reading and frozenset(y for x in nodes for y in leaves(read(x))) in whole
        reader = Reader(cg) if reading else None
        for d in watched if reading else ():
            case.check(reader.accepts(d), 'after compacting {} the demonstration {} cannot be read any more', choices, d)
            case.event('demonstrations read')
        case.check(len(choices) < 200, 'compaction goes on after 200 steps')
    return choices, reading


KINDS = {'Sequential': 'sequence', 'Parallel': 'parallel', 'Alternative': 'alternative'}


def combination_tree(c):
    """Nested (kind, names) of a hierarchy of combinations."""
    from task_models.task import LeafCombination
    if isinstance(c, LeafCombination):
        return c.name
    return (KINDS[c.kind], [combination_tree(x) for x in c.children])


def names_of(case, n):
    style = case.rng.choice(['a{}', 'a{}', 'act {}', 'é{}', '{}'])
    names = [style.format(i) for i in range(n)]
    case.rng.shuffle(names)
    return names


def recovered(case, sizes=(1, 7), cap=400):
    r = case.rng
    n = r.randint(*sizes)
    names = names_of(case, n)
    t = label(random_tree(r, r.choice(['sequence', 'parallel']), n), iter(names))
    demos = orders(t) if n_orders(t) <= cap and r.random() < .4 else demonstrations(r, t, r.choice([0, 0, 3]))
    if demos is None:
        return
    r.shuffle(demos)
    states, graph, paths = learn(case, demos, names)
    case.note(task=t, demonstrations=demos[:20], states=states)
    before = set(graph.all_transitions())
    cg = graph.conjugate()
    start, end = cg.initial.name, cg.terminal.name
    choices, whole = extract(case, cg, t, demos, start, end)
    case.note(compacted=choices)
    case.check(not cg.all_nodes(), 'nothing is left to compact but {} remain of {}', [str(x) for x in cg.all_nodes()], t)
    root = cg.initial
    case.check(root == cg.terminal, 'the markers end in different actions: {} and {}', root, cg.terminal)
    got = strip(read(root), (start, end))
    case.equal(canonical(got), canonical(t), 'hierarchy extracted')
    case.equal(set(graph.all_transitions()), before, 'demonstrated transitions after the extraction')
    for p in paths:
        case.check(graph.has_path(p), 'a demonstration is not a path any more')
    case.event('hierarchies recovered')
    case.key(t, demos, choices)
    if n_orders(t) <= cap:
        converted(case, root, t, (start, end), whole)


def converted(case, root, t, markers, whole):
    """The task made of the extracted hierarchy has the demonstrated orders."""
    from task_models.task import HierarchicalTask, MetaAction
    expected = {tuple(o) for o in orders(t)}
    case.check(isinstance(root, MetaAction), 'the root is {!r}', root)
    combination = root.to_combination()
    tree = strip(combination_tree(combination), markers)
    case.equal(canonical(tree), canonical(t), 'hierarchy of combinations')
    got = {tuple(o) for o in orders(tree)}
    case.check(got <= expected, 'orders of the task never demonstrated: {}', sorted(got - expected)[:5])
    if whole:
        case.equal(got, expected, 'orders of the task')
        case.event('exact orders')
    case.event('orders compared', len(expected))
    d = HierarchicalTask(combination).as_dictionary()

    def exported(x):
        return (KINDS[x['combination']], [exported(y) for y in x['children']]) if x.get('children') else x['name']
    case.equal(canonical(strip(exported(d['nodes']), markers)), canonical(t), 'exported hierarchy')


def large(case):
    recovered(case, sizes=(12, 30), cap=0)


def walks(case):
    """Arbitrary demonstrations of the same actions: the walks of the conjugate graph are kept by compacting chains."""
    from task_models.task import MetaAction
    r = case.rng
    n = r.randint(1, 6)
    names = names_of(case, n)
    demos = [r.sample(names, r.randint(1, n)) for _ in range(r.randint(1, 5))]
    states, graph, paths = learn(case, demos, names)
    case.note(demonstrations=demos, states=states)
    cg = graph.conjugate()
    start, end = cg.initial.name, cg.terminal.name
    steps = []
    while True:
        reader = Reader(cg)
        for d in demos:
            case.check(reader.accepts([start] + d + [end]), 'after compacting {} the demonstration {} cannot be read',
                       steps, d)
            case.event('demonstrations read')
        chains = [list(c) for c in cg.get_max_chains()]
        if not chains:
            break
        c = r.choice(chains)
        steps.append([x.name for x in c])
        cg.compact(c, MetaAction('sequence', c))
        case.event('chains compacted')
    case.key(demos, states, steps)
