"""C10: expanding a hierarchical task preserves its execution orders."""
import collections
import re

import numpy as np

from .. import gen, taskref

PROPERTY = 'C10'
RULE = ('random task trees (depth up to 4, parallels of up to 4 children, flags, probabilities, actions of all classes '
        'with extra attributes) are expanded, copied and flattened; the set of execution orders is compared with a '
        'brute-force enumeration, copies are compared with and isolated from the original. '
        'Non-trivial: distinct trees.')


class Extra(object):
    pass


def action_maker(case):
    from task_models.task import AbstractAction
    from task_models import supportive, task_to_pomdp, bring_next_to_pomdp
    kind = case.rng.choice(['abstract', 'supportive', 'bring-next', 'collaborative', 'mixed', 'subclass'])

    class Custom(AbstractAction):

        def __init__(self, name, one, two):
            super(Custom, self).__init__(name)
            self.one, self.two = one, two

    def make(i):
        k = case.rng.choice(['abstract', 'supportive', 'bring-next', 'collaborative', 'subclass']) \
            if kind == 'mixed' else kind
        name = 'leaf {}'.format(i)
        r = case.rng
        if k == 'abstract':
            a = AbstractAction(name)
        elif k == 'supportive':
            a = r.choice([supportive.AssembleLeg, supportive.AssembleFoot, supportive.AssembleTopJoint,
                          supportive.AssembleLegToTop])(name)
            a.name = name
        elif k == 'bring-next':
            a = bring_next_to_pomdp.CollaborativeAction(name, 'obj{}'.format(r.randrange(3)))
        elif k == 'collaborative':
            a = task_to_pomdp.CollaborativeAction(name, (r.random(), r.random(), r.random()),
                                                  human_probability=r.random(), fail_probability=r.random(),
                                                  no_probability=r.random())
        else:
            a = Custom(name, r.random(), [r.random()])
        if r.random() < .3:
            a.agent = r.choice(['human', 'robot'])
        if r.random() < .2:
            a.note = r.random()
        return a
    return make


def random_htm(case, max_depth=3, max_leaves=24, supportive_only=False, max_parallel=4):
    from task_models.task import (SequentialCombination, AlternativeCombination, ParallelCombination, LeafCombination)
    if supportive_only:
        from task_models.supportive import AssembleLeg

        def make(i):
            a = AssembleLeg('x')
            a.name = 'leaf {}'.format(i)
            return a
    else:
        make = action_maker(case)
    tree = gen.random_tree(case, case.rng.randint(0, max_depth), 4, lambda i: i, max_leaves=max_leaves,
                           max_parallel=max_parallel)

    def build(t):
        hl = case.rng.random() < .3
        if t[0] == 'leaf':
            return LeafCombination(make(t[1]), highlighted=hl)
        kids = [build(c) for c in t[2]]
        proba = None
        if case.rng.random() < (.5 if t[0] == 'Alternative' else .1):
            proba = [float(x) for x in gen.prob_row(case.np, len(kids), case.rng.choice(gen.STYLES))]
        cls = {'Sequential': SequentialCombination, 'Alternative': AlternativeCombination,
               'Parallel': ParallelCombination}[t[0]]
        return cls(kids, name=t[1], highlighted=hl, probabilities=proba)

    return tree, build(tree)


def attrs(a):
    d = dict(vars(a))
    d.pop('name')
    return d


def snapshot(node, rename=lambda n: n):
    """Everything visible in a node, as a value."""
    if node.kind is None:
        return ('leaf', rename(node.name), bool(node.highlighted), type(node.action), rename(node.action.name),
                repr(sorted(attrs(node.action).items())))
    # nodes without given probabilities: None, or the uniform default of alternatives
    return (node.kind, rename(node.name), bool(node.highlighted),
            None if node.proba is None else [float(x) for x in node.proba],
            [snapshot(c, rename) for c in node.children])


def parts_of(node):
    """identities of the nodes and actions of a tree"""
    if node.kind is None:
        return {id(node), id(node.action)}
    return {id(node)}.union(*[parts_of(c) for c in node.children])


def deface(node):
    """Changes everything it can in a tree."""
    node.highlighted = not node.highlighted
    if node.kind is None:
        node.action.name += '!'
        for k in list(attrs(node.action)):
            setattr(node.action, k, 'defaced')
        node.action.more = 1
    else:
        if node.kind == 'Alternative':
            node.proba = [1.] + [0.] * (len(node.children) - 1)
        else:
            node.proba = 'defaced'
        node._name = 'defaced'
        for c in node.children:
            deface(c)
        node.children.reverse()
        node.children.append(None)


def leaves(node):
    if node.kind is None:
        return [node]
    return [x for c in node.children for x in leaves(c)]


def expand_all(case, node, path=()):
    """Expands every parallel with the code under test, checking each expansion; returns plain trees of leaf names."""
    if node.kind is None:
        return ('leaf', node.action.name)
    if node.kind == 'Parallel':
        before = snapshot(node)
        alt = node.to_alternative()
        case.equal(snapshot(node), before, 'parallel after expansion')
        check_expansion(case, node, alt)
        case.event('expansions')
        node = alt
    return (node.kind, node.name, [expand_all(case, c) for c in node.children])


def base(name):
    while re.search(r' order-\d+$', name):
        name = re.sub(r' order-\d+$', '', name)
    return name


def check_expansion(case, par, alt):
    import itertools
    case.equal(alt.kind, 'Alternative', 'kind of an expanded parallel')
    case.equal(alt.name, par.name, 'name of an expanded parallel')
    case.equal(bool(alt.highlighted), bool(par.highlighted), 'highlighting of an expanded parallel')
    n = len(par.children)
    perms = list(itertools.permutations(range(n)))
    case.equal(len(alt.children), len(perms), 'number of orders of an expanded parallel')
    case.close(alt.proba, [1. / len(perms)] * len(perms), 'probabilities of the orders')
    seen = []
    # leaf names distinguish children: strip what the expansion added
    plain = [snapshot(c, base) for c in par.children]
    for seq in alt.children:
        case.equal(seq.kind, 'Sequential', 'kind of an order')
        case.equal(len(seq.children), n, 'number of children of an order')
        got = [snapshot(c, base) for c in seq.children]
        perm = []
        for x in got:
            case.check(x in plain, 'child {} of an order is not a child of the parallel', x)
            perm.append(plain.index(x))
        case.check(len(set(perm)) == n, 'a child is repeated in an order: {}', perm)
        seen.append(tuple(perm))
    case.check(sorted(seen) == sorted(perms), 'orders {} instead of the permutations', sorted(seen))
    names = [x.name for x in leaves(alt)]
    case.check(len(set(names)) == len(names), 'leaf names are not distinct: {}', sorted(names)[:8])
    ids = [id(x) for c in alt.children for x in leaves(c)] + [id(x.action) for c in alt.children for x in leaves(c)]
    case.check(len(set(ids)) == len(ids), 'orders share leaves')
    case.check(not parts_of(alt) & parts_of(par), 'an expansion shares nodes with the original')


def case_expand(case):
    tree, root = random_htm(case)
    before = snapshot(root)
    expanded = expand_all(case, root)
    case.equal(snapshot(root), before, 'task after expansion')
    label = lambda t: ('leaf', int(base(t[1]).split()[-1])) if t[0] == 'leaf' else (t[0], t[1], [label(c) for c in t[2]])
    got = collections.Counter(gen.orders(label(expanded)))
    exp = collections.Counter(gen.orders(tree))
    case.check(got == exp, 'execution orders changed: lost {}, invented {}', list((exp - got))[:3], list((got - exp))[:3])
    case.event('orders', len(exp))
    names = taskref.leaves(expanded)
    case.check(len(set(names)) == len(names), 'leaf names are not distinct after expansion')
    case.key('expand', repr(tree))
    case.note(tree=tree, orders=len(exp))
    if 'Parallel' in repr(tree):
        case.event('with-parallel')


def case_copy(case):
    tree, root = random_htm(case)
    fmt = case.rng.choice(['{}', '{} copy', 'pre-{}', None])
    before = snapshot(root)
    cp = root.deep_copy() if fmt is None else root.deep_copy(rename_format=fmt)
    case.equal(snapshot(root), before, 'task after copying')
    fmt = fmt or '{}'
    case.equal(snapshot(cp), snapshot(root, lambda n: fmt.format(n)), 'copy')
    case.check(not parts_of(cp) & parts_of(root), 'a copy shares nodes with the original')
    kept = snapshot(cp)
    if case.rng.random() < .5:
        deface(cp)
        case.equal(snapshot(root), before, 'original after changing the copy')
    else:
        deface(root)
        case.equal(snapshot(cp), kept, 'copy after changing the original')
    case.event('copies')
    case.key('copy', repr(tree), fmt)
    case.note(tree=tree, rename=fmt)


def dag_orders(case, p):
    n = len(p.htm_nodes)
    out = []

    def walk(i, path):
        if len(path) > n:
            case.fail('the flattened task has a cycle: {}'.format(path))
        if i == p.htm_clean:
            out.append(tuple(path))
            return
        case.check(0 <= i < n, 'successor {} is not a step', i)
        case.check(len(set(p.htm_succs[i])) == len(p.htm_succs[i]), 'repeated successors of step {}', i)
        for j in p.htm_succs[i]:
            walk(j, path + [int(base(p.htm_nodes[i].name).split()[-1])])

    case.check(len(set(p.htm_init)) == len(p.htm_init), 'repeated initial steps')
    for i in p.htm_init:
        walk(i, [])
    return out


def case_flatten(case):
    from task_models.supportive import SupportivePOMDP
    tree, root = random_htm(case, supportive_only=True, max_leaves=case.rng.choice([6, 12, 30]), max_parallel=3)
    before = snapshot(root)
    if len(gen.orders(tree)) > 3000:
        case.event('too-many-orders')
        return
    p = SupportivePOMDP(root)
    case.equal(snapshot(root), before, 'task after flattening')
    got = collections.Counter(dag_orders(case, p))
    exp = collections.Counter(gen.orders(tree))
    case.check(got == exp, 'orders of the step graph: lost {}, invented {}', list((exp - got))[:3], list((got - exp))[:3])
    names = [x.name for x in p.htm_nodes]
    case.check(len(set(names)) == len(names), 'names of steps are not distinct')
    case.equal(len(names), gen.expanded_leaves(tree), 'number of steps')
    case.equal(list(p.htm_names), names + ['clean', 'final'], 'names of steps')
    case.check(all(x.action.conditions == leaves(root)[0].action.conditions and x.action.hold == 'h'
                   for x in p.htm_nodes), 'action of a step')
    case.event('flattened')
    case.key('flatten', repr(tree))
    case.note(tree=tree, steps=len(names))


def case_large(case):
    """Wide and long tasks: many children of each kind, with and without nesting."""
    from task_models.task import (SequentialCombination, AlternativeCombination, ParallelCombination, LeafCombination)
    from task_models.supportive import AssembleLeg, SupportivePOMDP
    r = case.rng
    count = [0]

    def leaf():
        a = AssembleLeg('x')
        a.name = 'leaf {}'.format(count[0])
        count[0] += 1
        return LeafCombination(a, highlighted=r.random() < .3), ('leaf', count[0] - 1)

    def group(kind, parts):
        cls = {'Sequential': SequentialCombination, 'Alternative': AlternativeCombination,
               'Parallel': ParallelCombination}[kind]
        name = 'group {}'.format(count[0])
        return cls([x for x, _ in parts], name=name), (kind, name, [t for _, t in parts])

    shape = r.choice(['parallel', 'alternative', 'sequence', 'deep'])
    if shape == 'parallel':
        n = r.choice([5, 5, 5, 6])
        parts = [group(r.choice(['Sequential', 'Alternative']), [leaf() for _ in range(2)])
                 if n == 5 and i == 0 and r.random() < .5 else leaf() for i in range(n)]
        top = group('Parallel', parts)
    elif shape == 'alternative':
        wide = [group('Sequential', [leaf() for _ in range(r.randint(1, 2))]) if r.random() < .5 else leaf()
                for _ in range(r.randint(8, 40))]
        top = group('Alternative', wide)
    elif shape == 'sequence':
        top = group('Sequential', [group('Alternative', [leaf(), leaf()]) if i in (5, 17) else leaf()
                                   for i in range(r.randint(20, 60))])
    else:
        top = leaf()
        for _ in range(r.randint(6, 12)):
            kind = r.choice(['Sequential', 'Alternative', 'Parallel'])
            both = [top, leaf()]
            r.shuffle(both)
            t = group(kind, both)
            if gen.expanded_leaves(t[1]) <= 150:
                top = t
    if r.random() < .7:     # something before and after
        ends = [leaf() for _ in range(r.randint(1, 2))]
        parts = [ends[0], top] + ends[1:]
        top = group('Sequential', parts)
    root, tree = top
    exp = collections.Counter(gen.orders(tree))
    before = snapshot(root)
    label = lambda t: ('leaf', int(base(t[1]).split()[-1])) if t[0] == 'leaf' else (t[0], t[1], [label(c) for c in t[2]])
    got = collections.Counter(gen.orders(label(expand_all(case, root))))
    case.check(got == exp, 'execution orders changed: lost {}, invented {}', list((exp - got))[:3], list((got - exp))[:3])
    p = SupportivePOMDP(root)
    case.equal(snapshot(root), before, 'task after flattening')
    case.equal(len(p.htm_names), gen.expanded_leaves(tree) + 2, 'number of steps')
    got = collections.Counter(dag_orders(case, p))
    case.check(got == exp, 'orders of the step graph: lost {}, invented {}', list((exp - got))[:3], list((got - exp))[:3])
    case.equal(snapshot(root.deep_copy()), before, 'copy of a large task')
    case.event('large:' + shape)
    case.event('large')
    case.key('large', repr(tree))
    case.note(shape=shape, orders=len(exp), leaves=count[0])


def case_proba(case):
    from task_models.task import AlternativeCombination, LeafCombination, AbstractAction, HierarchicalTask
    n = case.rng.randint(1, 5)
    kids = [LeafCombination(AbstractAction(str(i))) for i in range(n)]
    case.equal([float(x) for x in AlternativeCombination(kids).proba], [1. / n] * n, 'default probabilities')
    good = [float(x) for x in gen.prob_row(case.np, n, case.rng.choice(gen.STYLES))]
    as_given = case.rng.choice([list, tuple, np.array])
    alt = AlternativeCombination(kids, probabilities=as_given(good))
    case.close(list(alt.proba), good, 'given probabilities', 0)
    case.close(list(alt.deep_copy().proba), good, 'copied probabilities', 0)
    bad = list(good)
    how = case.rng.choice(['negative', 'above', 'sum', 'long', 'short', 'compensated'])
    i = case.rng.randrange(n)
    if how == 'negative':
        bad[i] = -.1 - bad[i]
    elif how == 'above':
        bad[i] = 1.1 + bad[i]
    elif how == 'sum':
        bad[i] += case.rng.choice([.01, -.01, .5, 1e-3, -1e-3, 5e-4])
    elif how == 'long':
        bad.append(0.)
    elif how == 'short':
        bad = [1. / (n - 1)] * (n - 1) if n > 1 else []
    else:       # sums to one, but one is negative
        if n < 2:
            return
        bad = [0.] * n
        x = case.rng.choice([.25, 1e-3])
        bad[i], bad[i - 1] = -x, 1 + x
    case.raises(ValueError, lambda: AlternativeCombination(kids, probabilities=as_given(bad)),
                'alternative with invalid probabilities {}'.format(bad))

    def assign():
        alt.proba = as_given(bad)
    case.raises(ValueError, assign, 'assigning invalid probabilities')
    case.close(list(alt.proba), good, 'probabilities after a refused assignment', 0)
    alt.proba = None
    case.close(list(alt.proba), [1. / n] * n, 'probabilities set to default')
    case.event('proba:' + how)
    case.key('proba', good, bad)


def run(ctx):
    ctx.cases('expand', ctx.n(5000, 20000), case_expand)
    ctx.cases('copy', ctx.n(5000, 20000), case_copy)
    ctx.cases('flatten', ctx.n(5000, 20000), case_flatten)
    ctx.cases('large', ctx.n(600, 2400), case_large)
    ctx.cases('proba', ctx.n(3000, 12000), case_proba)
    for k in ('expansions', 'with-parallel', 'copies', 'flattened'):
        ctx.require(k, 50)
    ctx.require('large', 20)
