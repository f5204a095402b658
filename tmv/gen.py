"""Generators shared by the checks. Everything is drawn from the case's own streams."""
import itertools

import numpy as np


def prob_row(np_rng, n, style):
    """A distribution over n outcomes."""
    if style == 'det':
        r = np.zeros(n)
        r[np_rng.randint(n)] = 1.
        return r
    if style == 'sparse':
        k = np_rng.randint(1, min(n, 3) + 1)
        idx = np_rng.choice(n, k, replace=False)
        r = np.zeros(n)
        r[idx] = np_rng.dirichlet(np.ones(k))
        return r
    if style == 'tiny':
        r = np_rng.dirichlet(np.ones(n) * .05)
        r[r < 1e-3] = 0.
        if r.sum() == 0:
            r[0] = 1.
        return r / r.sum()
    if style == 'uniform':
        return np.ones(n) / n
    if style == 'grid':      # multiples of 1/8: exact in floating point
        c = np_rng.multinomial(8, np.ones(n) / n)
        return c / 8.
    return np_rng.dirichlet(np.ones(n))


STYLES = ['det', 'sparse', 'tiny', 'uniform', 'dense', 'grid']


def rows(np_rng, shape, style=None):
    a = np.zeros(shape)
    for idx in np.ndindex(*shape[:-1]):
        s = style or STYLES[np_rng.randint(len(STYLES))]
        a[idx] = prob_row(np_rng, shape[-1], s)
    return a


def names(np_rng, n, prefix):
    words = ['alpha', 'b-2', 'c_3', 'Delta', 'e', 'f0', 'go', 'h-i-j', 'K', 'l']
    kind = np_rng.randint(3)
    if kind == 0:
        return ['{}{}'.format(prefix, i) for i in range(n)]
    if kind == 1:
        order = np_rng.permutation(max(n, len(words)))[:n]
        return ['{}-{}'.format(prefix, words[i] if i < len(words) else i) for i in order]
    order = np_rng.permutation(n)
    return ['{}{}'.format(prefix, i) for i in order]


def pomdp_parts(case, s=None, a=None, o=None, max_s=6, style=None, named=None, discount=None, int_rewards=None):
    r = case.np
    s = s or r.randint(1, max_s + 1)
    a = a or r.randint(1, 5)
    o = o or r.randint(1, 5)
    style = style if style is not None else (None if r.rand() < .5 else STYLES[r.randint(len(STYLES))])
    T = rows(r, (a, s, s), style)
    O = rows(r, (a, s, o), style)
    if int_rewards is None:
        int_rewards = r.rand() < .5
    R = r.randint(-9, 10, size=(a, s, s, o)).astype(float) if int_rewards else r.randn(a, s, s, o) * 10
    start = prob_row(r, s, style or STYLES[r.randint(len(STYLES))])
    if discount is None:
        discount = [1., 0., .95, .5, 1, .9, .9995, float(r.uniform(0, 1)), 1 - float(r.uniform(0, 1)) * 1e-6][r.randint(9)]
    d = dict(T=T, O=O, R=R, start=start, discount=discount)
    if named is None:
        named = r.rand() < .7
    if named:
        d.update(states=names(r, s, 's'), actions=names(r, a, 'a'), observations=names(r, o, 'o'))
    return d


def make_pomdp(parts, **kw):
    from task_models.lib.pomdp import POMDP
    d = dict(parts)
    d.update(kw)
    cp = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}
    return POMDP(cp.pop('T'), cp.pop('O'), cp.pop('R'), cp.pop('start'), cp.pop('discount'), **cp)


def edit_model(case, m, parts):
    """Changes a model after it was built; returns its parts as they are now."""
    r = case.rng
    for how in r.sample(['randomize', 'rewards', 'discount', 'replace', 'in place'], r.randint(1, 2)):
        if how == 'randomize':
            m.randomize(r.choice([1e-3, .1, .5]))
        elif how == 'rewards':
            m.R = np.asarray(case.np.randint(-9, 10, size=m.R.shape), dtype=float)
        elif how == 'discount':
            m.discount = r.choice([0., .25, .75, 1.])
        elif how == 'replace':
            m.T = rows(case.np, m.T.shape)
            m.start = prob_row(case.np, m.start.shape[0], 'dense')
        else:
            m.O[...] = rows(case.np, m.O.shape) if m.O.dtype == float else m.O
        case.event('edited: ' + how)
    d = dict(parts, discount=m.discount)
    for k in ('T', 'O', 'R', 'start'):
        d[k] = np.array(getattr(m, k))
    d.pop('values', None)
    return d


def bayes(T, O, a, o, b):
    """Independent Bayes filter with plain Python floats; returns (posterior or None, P(o | b, a))."""
    S = len(b)
    joint = []
    for s2 in range(S):
        p = 0.
        for s in range(S):
            p += float(b[s]) * float(T[a][s][s2])
        joint.append(p * float(O[a][s2][o]))
    z = sum(joint)
    if z == 0.:
        return None, 0.
    return [x / z for x in joint], z


def random_tree(case, max_depth, max_children, leaf, kinds=('Sequential', 'Alternative', 'Parallel'),
                max_leaves=8, p_leaf=.45, max_parallel=3):
    """A nested description: ('leaf', payload) or (kind, name, [children]).

    leaf: function(i) -> payload. The number of leaves after expansion of the parallels is bounded."""
    counter = itertools.count()
    node_names = itertools.count()
    r = case.rng

    def build(depth):
        if depth == 0 or r.random() < (.1 if depth == max_depth else p_leaf):
            return ('leaf', leaf(next(counter)))
        kind = r.choice(kinds)
        n = r.randint(1, max_parallel if kind == 'Parallel' else max_children)
        return (kind, 'node {}'.format(next(node_names)), [build(depth - 1) for _ in range(n)])

    while True:
        t = build(max_depth)
        if expanded_leaves(t) <= max_leaves:
            return t
        counter = itertools.count()
        node_names = itertools.count()


def expanded_leaves(t):
    if t[0] == 'leaf':
        return 1
    n = sum(expanded_leaves(c) for c in t[2])
    if t[0] == 'Parallel':
        k = len(t[2])
        f = 1
        for i in range(2, k + 1):
            f *= i
        return n * f
    return n


def tree_to_htm(t, make_leaf):
    from task_models.task import (SequentialCombination, AlternativeCombination, ParallelCombination,
                                  LeafCombination)
    cls = {'Sequential': SequentialCombination, 'Alternative': AlternativeCombination,
           'Parallel': ParallelCombination}
    if t[0] == 'leaf':
        return LeafCombination(make_leaf(t[1]))
    return cls[t[0]]([tree_to_htm(c, make_leaf) for c in t[2]], name=t[1])


def orders(t):
    """The set (as a sorted list, with multiplicity) of execution orders a task tree denotes."""
    if t[0] == 'leaf':
        return [(t[1],)]
    subs = [orders(c) for c in t[2]]
    if t[0] == 'Sequential':
        return [sum(p, ()) for p in itertools.product(*subs)]
    if t[0] == 'Alternative':
        return [x for s in subs for x in s]
    return [sum(p, ()) for perm in itertools.permutations(subs) for p in itertools.product(*perm)]


def previous(case, path, p=.3):
    """Sometimes leaves a longer file of an earlier run at this place: it has to be replaced, not patched."""
    if case.rng.random() < p:
        with open(path, 'w') as f:
            f.write('{"previous": "' + 'x' * 200000 + '"}')
        case.event('previous file replaced')
