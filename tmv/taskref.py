"""Reference semantics of task trees, shared by the oracles of the two converters and of the flattening.

A tree is ('leaf', payload) or (kind, name, [children]); see gen.random_tree."""
import itertools


def expand(t, rename=lambda payload, fmt: payload, fmts=()):
    """Parallels become alternatives of sequences; leaves are payloads renamed by the formats met from the inside
    out: a leaf below the i-th order of a parallel is named '<name> order-i'."""
    if t[0] == 'leaf':
        p = t[1]
        for f in fmts:
            p = rename(p, f)
        return ('leaf', p)
    if t[0] == 'Parallel':
        seqs = []
        for i, perm in enumerate(itertools.permutations(range(len(t[2])))):
            # an outer parallel copies (and renames) its children before the inner ones are expanded
            seqs.append(('Sequential', None,
                         [expand(t[2][k], rename, fmts + ('{} order-' + str(i),)) for k in perm]))
        return ('Alternative', t[1], seqs)
    return (t[0], t[1], [expand(c, rename, fmts) for c in t[2]])


def leaves(t):
    if t[0] == 'leaf':
        return [t[1]]
    return [x for c in t[2] for x in leaves(c)]


def annotate(t):
    """For an expanded tree: list of leaves in depth-first order, and for each one (by position)
    the distribution of what comes next ({position or 'end': probability}) and the positions of the
    leaves placed after it by enclosing sequences. Also the distribution of the first step.
    """
    order = []

    def number(t):
        if t[0] == 'leaf':
            order.append(t[1])
            return ('leaf', len(order) - 1)
        return (t[0], t[1], [number(c) for c in t[2]])

    t = number(t)
    nexts, after = {}, {}

    def first(t):
        if t[0] == 'leaf':
            return {t[1]: 1.}
        if t[0] == 'Sequential':
            return first(t[2][0])
        d = {}
        for c in t[2]:
            for k, v in first(c).items():
                d[k] = d.get(k, 0.) + v / len(t[2])
        return d

    def walk(t, nxt, aft):
        if t[0] == 'leaf':
            nexts[t[1]] = nxt
            after[t[1]] = set(aft)
        elif t[0] == 'Sequential':
            for i, c in enumerate(t[2]):
                n = first(t[2][i + 1]) if i + 1 < len(t[2]) else nxt
                walk(c, n, aft | set(x for o in t[2][i + 1:] for x in leaves(o)))
        else:
            for c in t[2]:
                walk(c, nxt, aft)

    walk(t, {'end': 1.}, set())
    return order, nexts, after, first(t)


def describe(node):
    """Tree of a combination object (payload: the action)."""
    if node.kind is None:
        return ('leaf', node.action)
    return (node.kind, node.name, [describe(c) for c in node.children])
