"""C23: graph edits and compaction keep exactly the right transitions."""
import collections
import json

from .. import graphgen
from .c22 import make_nodes, Node

PROPERTY = 'C23'
RULE = ('random histories of additions (repeated and parallel transitions, self loops), removals (also of absent '
        'transitions) and compactions (groups given as lists, tuples, sets, with marker nodes, absent nodes, into new '
        'or existing nodes) on base, task and conjugate graphs; after every operation nodes, transitions, markers, '
        'equality with a differently built copy and the dictionary export are compared with a set of triples. '
        'Meta-actions with random nesting are converted to combinations. Non-trivial: distinct histories.')


class Str(object):
    """Node or label with a chosen text, not necessarily different from others'."""

    def __init__(self, i, text):
        self.i, self.text = i, text

    def __hash__(self):
        return hash(self.i)

    def __eq__(self, other):
        return isinstance(other, Str) and self.i == other.i

    def __str__(self):
        return self.text

    def __repr__(self):
        return 'Str({}, {!r})'.format(self.i, self.text)


def make_graph(kind):
    from task_models.task import BaseGraph, TaskGraph, ConjugateTaskGraph
    return {'base': BaseGraph, 'task': TaskGraph, 'conjugate': ConjugateTaskGraph}[kind]()


def compare(case, g, ref, universe, what):
    got = list(g.all_transitions())
    case.check(len(got) == len(set(got)), '{}: a transition is reported twice: {}', what, got)
    case.check(set(got) == ref, '{}: missing transitions {}, unexpected {}', what, sorted(map(repr, ref - set(got)))[:5],
               sorted(map(repr, set(got) - ref))[:5])
    nodes = {x for s, _, d in ref for x in (s, d)}
    case.equal(set(g.all_nodes()), nodes, '{}: nodes'.format(what))
    case.equal(len(list(g.all_nodes())), len(nodes), '{}: number of nodes'.format(what))
    for _ in range(5):
        s, d = case.rng.choice(universe[0]), case.rng.choice(universe[0])
        l = case.rng.choice(universe[1])
        case.equal(bool(g.has_transition(s, l, d)), (s, l, d) in ref, '{}: has_transition{}'.format(what, (s, l, d)))
    for t in case.rng.sample(sorted(ref, key=repr), min(3, len(ref))):
        case.check(g.has_transition(*t), '{}: has_transition misses {}', what, t)
    case.event('compared')


def check_export(case, g, ref):
    name = case.rng.choice([None, '', 'graph', 'é'])
    d = g.as_dictionary() if name is None else g.as_dictionary(name=name)
    case.equal(d['name'], name or '', 'name of the export')
    nodes = {x for s, _, t in ref for x in (s, t)}
    ids = [n['id'] for n in d['nodes']]
    case.check(len(ids) == len(set(ids)) == len(nodes), 'identifiers of the export: {} for {} nodes', ids, len(nodes))
    label = {n['id']: n['value']['label'] for n in d['nodes']}
    case.equal(collections.Counter(label.values()), collections.Counter(str(x) for x in nodes), 'exported node labels')
    case.check(all(l['u'] in label and l['v'] in label for l in d['links']),
               'exported link between unknown nodes: {}', d['links'])
    links = [(label[l['u']], l['value']['label'], label[l['v']]) for l in d['links']]
    case.equal(collections.Counter(links), collections.Counter((str(s), str(l), str(t)) for s, l, t in ref),
               'exported links')
    # the export is the graph up to renaming: degrees per identifier agree
    sig = collections.Counter()
    for i in ids:
        sig[(label[i], frozenset(collections.Counter(
            (l['value']['label'], label[l['v']]) for l in d['links'] if l['u'] == i).items()),
            frozenset(collections.Counter(
                (l['value']['label'], label[l['u']]) for l in d['links'] if l['v'] == i).items()))] += 1
    exp = collections.Counter()
    for n in nodes:
        exp[(str(n), frozenset(collections.Counter((str(l), str(t)) for s, l, t in ref if s == n).items()),
             frozenset(collections.Counter((str(l), str(s)) for s, l, t in ref if t == n).items()))] += 1
    case.equal(sig, exp, 'links around each exported node')
    json.dumps(d)
    case.event('exported')


def check_equality(case, kind, g, ref, markers, tg):
    """A graph built directly with the same content is equal; with one difference it is not."""
    other = make_graph(kind)
    for t in case.rng.sample(sorted(ref, key=repr), len(ref)):
        other.add_transition(*t)
    if kind == 'task':
        for x in tg[0]:
            other.initial.add(x)
        for x in tg[1]:
            other.terminal.add(x)
    elif kind == 'conjugate':
        other.initial, other.terminal = markers
    case.check(g == other and other == g and not (g != other), 'graphs with the same content compare different')
    case.check(g == g, 'a graph differs from itself')
    extra = ('extra node', 'l', 'extra node')
    if ref and case.rng.random() < .5:
        other.remove_transition(*case.rng.choice(sorted(ref, key=repr)))
    elif kind == 'task' and case.rng.random() < .5:
        s = case.rng.choice([other.initial, other.terminal])
        s.symmetric_difference_update({'extra node'})
    else:
        other.add_transition(*extra)
    case.check(not (g == other) and not (other == g) and g != other, 'graphs with different contents compare equal')
    for foreign in (None, 3, 'graph', ref, object()):
        case.check(not (g == foreign), 'a graph equals {!r}', foreign)
    case.event('equality')


def edits(case):
    from task_models.task import ConjugateTaskGraph, MetaAction, AbstractAction
    rng = case.rng
    kind = rng.choice(['base', 'task', 'conjugate'])
    g = make_graph(kind)
    nodes = make_nodes(case, rng.randint(1, 8))
    if rng.random() < .3:
        nodes = [Str(i, rng.choice(['same', 's{}'.format(i)])) for i in range(len(nodes))]
    labels = rng.choice([['x', 'y'], ['', 'x'], [1, 2, 3], [('s', 1), None], [Str(0, 'same'), Str(1, 'same')]])
    labels = list(labels) + ['']
    markers, tg = None, None
    if kind == 'conjugate':
        nodes = nodes + [g.initial, g.terminal]
        markers = [g.initial, g.terminal]
        class_markers = (ConjugateTaskGraph.initial, ConjugateTaskGraph.terminal)
    elif kind == 'task':
        tg = (set(rng.sample(nodes, rng.randint(0, len(nodes)))), set(rng.sample(nodes, rng.randint(0, len(nodes)))))
        g.initial |= tg[0]
        g.terminal |= tg[1]
    universe = (list(nodes), labels)
    ref = set()
    history = []
    for step in range(rng.choice([3, 10, 30])):
        op = rng.choice(['add', 'add', 'add', 'add', 'many', 'remove', 'absent', 'compact'])
        if op in ('add', 'many'):
            for _ in range(1 if op == 'add' else 8):
                t = (rng.choice(universe[0]), rng.choice(labels), rng.choice(universe[0]))
                if ref and rng.random() < .15:
                    t = rng.choice(sorted(ref, key=repr))       # again
                g.add_transition(*t)
                ref.add(t)
        elif op == 'remove' and ref:
            t = rng.choice(sorted(ref, key=repr))
            g.remove_transition(*t)
            ref.remove(t)
            case.event('removed')
        elif op == 'absent':
            t = (rng.choice(universe[0]), rng.choice(labels), rng.choice(universe[0]))
            if t in ref:
                continue
            try:
                g.remove_transition(*t)
            except (KeyError, ValueError):
                case.event('absent-refused')
            case.event('removed-absent')
        else:
            op = 'compact'
            group = rng.sample(universe[0], rng.randint(0, min(4, len(universe[0]))))
            if rng.random() < .2:
                group.append('not in the graph')
            new = rng.choice(['fresh', 'fresh', 'meta', 'member', 'other'])
            if new == 'member' and group:
                node = rng.choice(group)
            elif new == 'other':
                node = rng.choice(universe[0])
            elif new == 'meta' and group and all(isinstance(x, AbstractAction) for x in group):
                node = MetaAction(rng.choice(['sequence', 'parallel', 'alternative']), list(group))
            else:
                node = 'new {}'.format(step)
            wrap = rng.choice([list, tuple, set, frozenset, iter])
            given = wrap(group)
            if wrap is iter:
                g.compact(given, node)
            else:
                size = len(given)
                g.compact(given, node)
                case.equal(len(given), size, 'size of the group given')
            redirect = {}
            for s, l, d in ref:
                a, b = s in group, d in group
                if a and b:
                    continue
                t = (node if a else s, '', node if b else d) if a or b else (s, l, d)
                redirect[t] = None
            ref = set(redirect)
            if kind == 'conjugate':
                # markers of the group follow it
                if any(m == markers[0] for m in group):
                    markers[0] = node
                if any(m == markers[1] for m in group):
                    markers[1] = node
            if node not in universe[0]:
                universe[0].append(node)
            case.event('compacted')
            history.append((op, repr(group), repr(node)))
        history.append(op)
        case.note(kind=kind, history=history[-12:])
        compare(case, g, ref, universe, 'after {} ({})'.format(op, kind))
        if kind == 'conjugate':
            case.check(g.initial == markers[0] and g.terminal == markers[1],
                       'after {}: markers are {} and {}, expected {}', op, g.initial, g.terminal, markers)
            case.check(class_markers[0] is ConjugateTaskGraph.initial and
                       class_markers[1] is ConjugateTaskGraph.terminal and
                       str(class_markers[0]) == 'initial' and str(class_markers[1]) == 'terminal',
                       'the markers of other graphs changed')
            other = ConjugateTaskGraph()
            case.check(str(other.initial) == 'initial' and not list(other.all_transitions()),
                       'a new graph is not empty or has changed markers')
        elif kind == 'task':
            case.check(g.initial == tg[0] and g.terminal == tg[1], 'an edit changed initial or terminal states')
        if rng.random() < .3:
            check_export(case, g, ref)
            check_equality(case, kind, g, ref, markers, tg)
    case.key(kind, history, sorted(map(repr, ref)))


# -- meta-actions ------------------------------------------------------------
def random_meta(case, depth, leaves):
    from task_models.task import MetaAction, AbstractAction
    rng = case.rng
    if depth == 0 or rng.random() < .3:
        if rng.random() < .2:
            from task_models.action import PrePostConditionAction, MatchAllCondition
            from task_models.supportive import AssembleLeg
            a = rng.choice([lambda: PrePostConditionAction(MatchAllCondition(), MatchAllCondition(),
                                                           name='pp{}'.format(len(leaves))),
                            lambda: AssembleLeg('leg{}'.format(len(leaves)))])()
        else:
            a = AbstractAction('a{}'.format(len(leaves) if rng.random() < .8 else rng.randrange(3)))
        leaves.append(a)
        return ('leaf', a), a
    kind = rng.choice(['sequence', 'parallel', 'alternative'])
    kids = [random_meta(case, depth - 1, leaves) for _ in range(rng.randint(1, 4))]
    ordered = rng.random() < .6
    members = [m for _, m in kids]
    refs = [r for r, _ in kids]
    if ordered:
        group = rng.choice([list, tuple])(members)
    else:
        distinct, keep = [], []
        for r, m in kids:
            if not any(m == x for x in distinct):
                distinct.append(m)
                keep.append(r)
        refs = keep
        group = rng.choice([set, frozenset])(distinct)
    meta = MetaAction(kind, group)
    return (kind, ordered, refs), meta


def same(case, ref, comb):
    from task_models.task import (SequentialCombination, ParallelCombination, AlternativeCombination, LeafCombination)
    if ref[0] == 'leaf':
        return isinstance(comb, LeafCombination) and (comb.action is ref[1] or comb.action == ref[1]) and \
            comb.name == ref[1].name
    cls = {'sequence': SequentialCombination, 'parallel': ParallelCombination,
           'alternative': AlternativeCombination}[ref[0]]
    if not isinstance(comb, cls) or len(comb.children) != len(ref[2]):
        return False
    kids = list(comb.children)
    if ref[1]:
        return all(same(case, r, c) for r, c in zip(ref[2], kids))
    # any order: match greedily (matching children are interchangeable)
    for r in ref[2]:
        for i, c in enumerate(kids):
            if same(case, r, c):
                kids.pop(i)
                break
        else:
            return False
    return True


def render(ref):
    return ref[1].name if ref[0] == 'leaf' else (ref[0], ref[1], [render(r) for r in ref[2]])


def text(comb):
    return comb.action.name if comb.kind is None else (comb.kind, [text(c) for c in comb.children])


def metas(case):
    from task_models.task import HierarchicalTask
    leaves = []
    ref, meta = random_meta(case, case.rng.randint(1, 4), leaves)
    if ref[0] == 'leaf':
        return
    case.note(meta=render(ref))
    case.key(render(ref))
    comb = meta.to_combination()
    case.check(same(case, ref, comb), 'the meta-action {} becomes {}', render(ref), text(comb))
    again = meta.to_combination()
    case.check(same(case, ref, again) and again is not comb, 'second conversion of {}: {}', render(ref), text(again))
    case.event('meta-converted')
    # It can be used as a task
    task = HierarchicalTask(root=comb)
    d = task.as_dictionary()
    count = [0]

    def walk(n):
        count[0] += 1
        for c in n.get('children', ()):
            walk(c)
    walk(d['nodes'])

    def size(r):
        return 1 if r[0] == 'leaf' else 1 + sum(size(x) for x in r[2])
    case.equal(count[0], size(ref), 'number of nodes of the exported combination')


def extraction(case):
    """The whole extraction of a hierarchy: the final meta-action contains each action once."""
    from task_models.task import TaskGraph, AbstractAction, MetaAction
    from task_models.state import State

    class History(State):
        def __init__(self, h):
            self.h = tuple(h)

        def __hash__(self):
            return hash(self.h)

        def __eq__(self, other):
            return isinstance(other, History) and self.h == other.h
    names = ['a{}'.format(i) for i in range(case.rng.randint(1, 6))]
    blocks, rest = [], list(names)
    while rest:
        k = case.rng.randint(1, len(rest))
        blocks.append(rest[:k])
        rest = rest[k:]
    g = TaskGraph()
    words = []
    for _ in range(case.rng.randint(1, 4)):
        word = [x for b in case.rng.sample(blocks, len(blocks)) for x in b]
        words.append(word)
        path = [History([])]
        for i, w in enumerate(word):
            path += [AbstractAction(w), History(word[:i + 1])]
        g.add_path(path)
    case.note(words=words)
    case.key(words)
    c = g.conjugate()
    ref = set(c.all_transitions())
    for _ in range(30):
        chain = next(c.get_max_chains(), None)
        group = chain if chain is not None else next(c.get_max_cliques(), None)
        if group is None:
            break
        node = MetaAction('sequence' if chain is not None else 'parallel', group)
        c.compact(group, node)
        new = set()
        for s, l, d in ref:
            a, b = s in group, d in group
            if not (a and b):
                new.add((node if a else s, '' if a or b else l, node if b else d))
        ref = new
        case.equal(set(c.all_transitions()), ref, 'transitions after compacting {}'.format(group))
        case.event('extraction-step')

    def flat(a):
        return [x for m in a.actions for x in flat(m)] if isinstance(a, MetaAction) else [a.name]
    # A node left without transitions is not reported: it is the last one then
    final = set(c.all_nodes()) or {node}
    case.equal(sorted(x for n in final for x in flat(n)), sorted(set(x for w in words for x in w) | {'initial', 'terminal'}),
               'actions of the compacted graph')

    def leaves(x):
        return [x.action.name] if x.kind is None else [y for k in x.children for y in leaves(k)]
    for n in final:
        if isinstance(n, MetaAction):
            case.equal(sorted(leaves(n.to_combination())), sorted(flat(n)), 'leaves of the extracted combination')
            case.event('extracted')


def run(ctx):
    ctx.cases('edits', ctx.n(5600, 22400), edits)
    ctx.cases('metas', ctx.n(3500, 14000), metas)
    ctx.cases('extraction', ctx.n(1400, 5600), extraction)
    for e, m in (('compared', 3000), ('removed', 200), ('removed-absent', 200), ('compacted', 200), ('exported', 200),
                 ('equality', 200), ('meta-converted', 100), ('extraction-step', 100), ('extracted', 50)):
        ctx.require(e, m)
