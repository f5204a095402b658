"""C24: equality and hashing agree for states, actions and conditions."""
import copy

import numpy as np

PROPERTY = 'C24'
RULE = ('pools of objects of one or several classes (vector states, boards, parts, conditions, pre/post-condition, '
        'placing, abstract, supported, collaborative and meta-actions, user sub-classes), each built several times '
        'with other numeric types, signed zeros, orders, containers, copies and equal but distinct members; all '
        'ordered pairs and triples are compared with the equality of reference identities, hashes of equal '
        'objects must agree, and sets, dictionaries and graphs must hold exactly one object per identity. '
        'Non-trivial: distinct pairs of unequal origin.')
ASSUMPTIONS = ['no NaN and no integer beyond 2^53 among features (equality of such vectors is not well defined)',
               'the features of a state are a numpy array, as everywhere in the repository']


def variant(rng, v):
    """Another array equal to v: other type, signed zeros, layout."""
    v = np.array(v, dtype=float)
    c = rng.randrange(7)
    if c == 0 and (v == v.astype(int)).all():
        w = v.astype(rng.choice([int, np.int32, np.int8]))
        return w if (w == v).all() else v.copy()
    if c == 1:
        w = v.copy()
        w[w == 0] = -0.
        return w
    if c == 2:
        return np.repeat(v, 2)[::2]       # not contiguous
    if c == 3 and ((v == 0) | (v == 1)).all():
        return v.astype(bool)
    if c == 4 and (v == v.astype(np.float32)).all():
        return v.astype(np.float32)
    if c == 5:
        w = v.copy()
        w.flags.writeable = False
        return w
    return v.copy()


def sequence(rng, v):
    """Features of a state: arrays, or plain sequences of the same numbers."""
    w = variant(rng, v)
    return rng.choice([w, w, w.tolist(), tuple(w.tolist())])


def vector(rng):
    n = rng.choice([0, 1, 2, 2, 3, 3, 9])
    many = [0, 0, 1, 1, 2, -1, .5]
    if rng.random() < .3:   # close to each other, or far away
        many += [1 + 1e-12, 1e-9, 1e-300, .1 + .2, .3, 128, 256, 1e9, -1e9, float('inf')]
    if n == 9:
        v = [0.] * n
        v[rng.randrange(n)] = float(rng.choice(many))
        return tuple(v)
    return tuple(float(rng.choice(many)) for _ in range(n))


def values_of(rng):
    n = rng.choice([1, 2, 2, 3])
    m = tuple(float(rng.choice([0, 1])) for _ in range(n))
    return m, tuple(x * rng.choice([0, 1, 1, 2, 1 + 1e-12]) for x in m)


class Pool(object):
    """Recipes of objects: recipe(rng) -> (identity, list of independent builders)."""

    def __init__(self, case):
        self.case = case
        self.rng = case.rng
        from task_models.task import AbstractAction
        from task_models.state import NDimensionalState
        from task_models.action import Condition, PrePostConditionAction

        class SubState(NDimensionalState):
            pass

        class SubCondition(Condition):
            pass

        class SubAction(AbstractAction):
            def __init__(self, name, extra):
                super(SubAction, self).__init__(name)
                self.extra = extra

        class SubPrePost(PrePostConditionAction):
            pass
        # one container per pool: whether [a] and (a,) name the same members is left open
        self.style = self.rng.choice(['list', 'tuple', 'set', 'set'])
        self.sub = (SubState, SubCondition, SubAction, SubPrePost)

    def recipe(self, kind):
        return getattr(self, kind)()

    def state(self):
        from task_models.state import NDimensionalState
        v = vector(self.rng)
        return ('state', v), lambda: self.rng.choice([NDimensionalState, NDimensionalState, self.sub[0]])(
            sequence(self.rng, v))

    def matrix_state(self):
        """A state whose features have two dimensions is not that of its flat version."""
        from task_models.state import NDimensionalState
        v = vector(self.rng)
        return ('matrix', v), lambda: NDimensionalState(variant(self.rng, v).reshape(1, len(v)))

    def part(self):
        from task_models.snap_circuit import SnapCircuitPart
        i, l = self.rng.choice([0, 1, 2, 19]), self.rng.choice(['a', 'b', 'A', 'a ', '', 'ab', '1'])
        return ('part', i, l), lambda: SnapCircuitPart(self.rng.choice([int, np.int64])(i), str(l))

    def board(self):
        from task_models.snap_circuit import SnapCircuitState
        rows, cols = self.rng.randint(1, 3), self.rng.randint(1, 3)
        parts = {}
        for _ in range(self.rng.randint(0, 5)):
            ident, b = self.part()
            parts[((self.rng.randrange(rows), self.rng.randrange(cols), self.rng.randrange(4)), ident)] = b

        def make():
            ps = [(tuple(k[0]), b()) for k, b in parts.items()]
            self.rng.shuffle(ps)
            if ps and self.rng.random() < .3:
                ps.append(self.rng.choice(ps))
            return SnapCircuitState(self.rng.choice([tuple, list])((rows, cols)), self.rng.choice([list, set])(ps))
        return ('board', (rows, cols), frozenset(parts)), make

    def condition(self):
        from task_models.action import Condition, MatchAllCondition
        c = self.rng.randrange(8)
        if c == 0:
            return ('match-all',), MatchAllCondition
        if c == 1:
            return self.presence()
        mask, value = values_of(self.rng)
        return ('condition', mask, value), lambda: self.rng.choice([Condition, Condition, self.sub[1]])(
            self.mask(mask), variant(self.rng, value))

    def mask(self, m):
        v = variant(self.rng, m)
        return v.astype(int) if v.dtype == bool else v      # (1 - mask) is not defined on booleans

    def presence(self):
        from task_models.snap_circuit import PartPresenceCondition, SnapCircuitPart
        from task_models.action import Condition
        board = (1, self.rng.randint(1, 2))
        pid = self.rng.randrange(2)
        loc = (0, self.rng.randrange(board[1]), self.rng.randrange(2))
        there = self.rng.random() < .5
        f = np.zeros((20,) + board + (4,))
        f[(pid,) + loc] = 1
        f = f.flatten()

        def make():
            if self.rng.random() < .3:
                return Condition(self.mask(f), variant(self.rng, f * there))
            return PartPresenceCondition(board, SnapCircuitPart(pid, self.rng.choice(['a', 'b'])), loc, is_there=there)
        return ('condition', tuple(f), tuple(f * there)), make

    def prepost(self):
        from task_models.action import PrePostConditionAction
        pre, b1 = self.condition()
        post, b2 = self.condition()
        return ('prepost', pre, post), lambda: self.rng.choice([PrePostConditionAction, self.sub[3]])(
            b1(), b2(), name=self.rng.choice(['x', 'y']))

    def place(self):
        from task_models.snap_circuit import PlaceAction, SnapCircuitPart
        from task_models.action import PrePostConditionAction, Condition
        board = (1, self.rng.randint(1, 2))
        pid, label = self.rng.randrange(2), self.rng.choice(['a', 'b'])
        loc = (0, self.rng.randrange(board[1]), self.rng.randrange(2))
        f = np.zeros((20,) + board + (4,))
        f[(pid,) + loc] = 1
        f = f.flatten()

        def make():
            if self.rng.random() < .2:
                return PrePostConditionAction(Condition(self.mask(f), variant(self.rng, f * 0)),
                                              Condition(self.mask(f), variant(self.rng, f)))
            return PlaceAction(board, SnapCircuitPart(pid, label), loc)
        return ('prepost', ('condition', tuple(f), tuple(f * 0)), ('condition', tuple(f), tuple(f))), make

    def abstract(self):
        from task_models.task import AbstractAction
        from task_models import supportive, bring_next_to_pomdp, task_to_pomdp
        name = self.rng.choice(['x', 'y', 'X', 'x ', '', '(x)', '(x→y)', '(x||y)', 'Assemble leg x', '0', 'initial'])

        def make():
            c = self.rng.randrange(6)
            if c == 0:
                return self.sub[2](name, self.rng.random())
            if c == 1:
                return bring_next_to_pomdp.CollaborativeAction(name, self.rng.choice(['o', 'p']))
            if c == 2:
                return task_to_pomdp.CollaborativeAction(name, (1., self.rng.random(), 2.))
            if c == 3:
                a = self.rng.choice([supportive.AssembleLeg, supportive.AssembleFoot])('x')
                a.name = name
                return a
            a = AbstractAction(name)
            if self.rng.random() < .3:
                a.agent = 'human'
            return a
        return ('abstract', name), make

    def meta(self, depth=2):
        from task_models.task import MetaAction
        kind = self.rng.choice(['sequence', 'parallel', 'alternative'])
        members = []
        for _ in range(self.rng.randint(0, 3)):
            c = self.rng.randrange(4)
            members.append(self.meta(depth - 1) if c == 0 and depth > 0 else
                           self.prepost() if c == 1 else self.abstract())
        style = self.style
        if style == 'set':
            ident = ('meta', kind, 'set', frozenset(m[0] for m in members))
        else:
            ident = ('meta', kind, style, tuple(m[0] for m in members))

        def make():
            objs = [m[1]() for m in members]
            if style == 'set':
                self.rng.shuffle(objs)
                objs = self.rng.choice([set, frozenset])(objs)
            else:
                objs = list(objs) if style == 'list' else tuple(objs)
            return MetaAction(kind, objs)
        return ident, make

    def plain(self):
        """Plain actions are only equal to themselves."""
        from task_models.action import Action
        a = Action(name=self.rng.choice(['x', 'y']), agent='human')
        return ('plain', id(a)), lambda: a


KINDS = ['state', 'matrix_state', 'part', 'board', 'condition', 'presence', 'prepost', 'place', 'abstract', 'meta',
         'plain']
FOREIGN = [None, 0, 'x', (), object(), NotImplemented, [1], {'a': 1}]


def pools(case):
    rng = case.rng
    pool = Pool(case)
    kinds = rng.sample(KINDS, rng.choice([1, 1, 2, len(KINDS)]))
    recipes = [pool.recipe(rng.choice(kinds)) for _ in range(rng.randint(2, 8))]
    objs = []
    for ident, make in recipes:
        for _ in range(rng.randint(1, 3)):
            objs.append((ident, make()))
    for ident, o in list(objs):
        if rng.random() < .2 and ident[0] != 'plain':
            objs.append((ident, rng.choice([copy.copy, copy.deepcopy])(o)))
            case.event('copied')
    case.note(kinds=kinds, identities=[i for i, _ in objs])
    hashes = [hash(o) for _, o in objs]
    for i, (k1, o1) in enumerate(objs):
        for j, (k2, o2) in enumerate(objs):
            exp = k1 == k2
            eq = o1 == o2
            case.check(eq in (True, False), 'comparing {} and {} gives {!r}', k1, k2, eq)
            case.check(bool(eq) == exp, '{} {} {} ({} and {})', k1, 'differs from' if exp else 'equals', k2,
                       type(o1).__name__, type(o2).__name__)
            case.check(bool(o1 != o2) == (not exp), '!= of {} and {} contradicts ==', k1, k2)
            if exp:
                case.check(hashes[i] == hashes[j], 'equal objects {} hash differently ({} and {})', k1,
                           type(o1).__name__, type(o2).__name__)
                case.event('equal-pair' if i != j else 'same-object')
            else:
                case.event('unequal-pair')
        for f in FOREIGN:
            case.check(not (o1 == f) and not (f == o1) and o1 != f, '{} equals {!r}', k1, f)
    # transitivity on what was observed (implied by agreement with identities, kept as a direct monitor)
    for _ in range(40):
        (_, a), (_, b), (_, c) = (rng.choice(objs) for _ in range(3))
        if a == b and b == c:
            case.check(a == c, 'equality is not transitive: {!r}, {!r}, {!r}', a, b, c)
            case.event('triple')
    containers(case, objs)
    case.equal([hash(o) for _, o in objs], hashes, 'hashes after use')
    case.key(sorted(set(repr(i) for i, _ in objs if i[0] != 'plain')))


def containers(case, objs):
    """Sets, dictionaries and graphs hold one object per identity."""
    from task_models.task import BaseGraph
    idents = set(i for i, _ in objs)
    order = case.rng.sample(objs, len(objs))
    case.equal(len(set(o for _, o in order)), len(idents), 'size of the set of {}'.format(sorted(map(repr, idents))))
    d = {}
    for i, o in order:
        case.check((o in d) == any(i == k for k in d.values()), 'membership of {} in a dictionary', i)
        d[o] = i
    for i, o in objs:
        case.check(d[o] == i, 'dictionary lookup of {} finds {}', i, d[o])
    case.equal(len(d), len(idents), 'size of the dictionary')
    half = [o for _, o in order[:len(order) // 2]]
    members = set(i for i, _ in order[:len(order) // 2])
    for i, o in objs:
        case.check((o in half) == (i in members), 'membership of {} in a list', i)
        case.check((o in set(half)) == (i in members), 'membership of {} in a set', i)
    g = BaseGraph()
    ref = set()
    for _ in range(8):
        (i1, a), (i2, b), (i3, c) = (case.rng.choice(objs) for _ in range(3))
        g.add_transition(a, b, c)
        ref.add((i1, i2, i3))
    case.equal(len(list(g.all_transitions())), len(ref), 'number of transitions of a graph')
    case.equal(len(g.all_nodes()), len(set(x for t in ref for x in (t[0], t[2]))), 'number of nodes of a graph')
    for _ in range(8):
        (i1, a), (i2, b), (i3, c) = (case.rng.choice(objs) for _ in range(3))
        case.equal(bool(g.has_transition(a, b, c)), (i1, i2, i3) in ref, 'has_transition')
    case.event('containers')


def near_misses(case):
    """Objects that differ in one component only are different, in both directions and in sets."""
    from task_models.action import Condition, PrePostConditionAction, MatchAllCondition
    from task_models.state import NDimensionalState
    from task_models.snap_circuit import SnapCircuitState, SnapCircuitPart, PlaceAction
    from task_models.task import AbstractAction, MetaAction
    rng = case.rng
    n = rng.randint(1, 40)
    v = np.array([float(rng.choice([0, 1, 2, -1])) for _ in range(n)])
    pairs = []
    w = v.copy()
    w[rng.randrange(n)] += rng.choice([1, -1, .5, 1e-9, 1e-300 if False else 2. ** -30])
    pairs.append((NDimensionalState(sequence(rng, v)), NDimensionalState(w)))
    pairs.append((NDimensionalState(variant(rng, v)), NDimensionalState(np.append(variant(rng, v), 0.))))
    mask = (v != 0).astype(float)
    m2 = mask.copy()
    k = rng.randrange(n)
    if v[k] == 0:
        m2[k] = 1 - m2[k]
        pairs.append((Condition(mask, v), Condition(m2, v)))
    full = np.ones(n)
    pairs.append((Condition(full, v), Condition(full, w)))
    m = MatchAllCondition()
    c1, c2 = Condition(full, v), Condition(full, w)
    pairs.append((PrePostConditionAction(c1, c2), PrePostConditionAction(c2, c1)))
    pairs.append((PrePostConditionAction(c1, m), PrePostConditionAction(c2, m)))
    pairs.append((PrePostConditionAction(m, c1), PrePostConditionAction(m, c2)))
    pairs.append((PrePostConditionAction(m, c1), PrePostConditionAction(c1, c1)))
    pairs.append((m, Condition(np.zeros(n), np.zeros(n))))
    board = (rng.randint(1, 4), rng.randint(1, 4))
    locs = [(r, c, o) for r in range(board[0]) for c in range(board[1]) for o in range(4)]
    p, q = SnapCircuitPart(3, 'p'), SnapCircuitPart(3, 'q')
    pairs.append((p, q))
    pairs.append((p, SnapCircuitPart(4, 'p')))
    s = [(rng.choice(locs), SnapCircuitPart(rng.randrange(20), 'x')) for _ in range(rng.randint(0, 4))]
    l1, l2 = rng.sample(locs, 2)
    pairs.append((SnapCircuitState(board, s + [(l1, p)]), SnapCircuitState(board, s + [(l2, p)])))
    pairs.append((SnapCircuitState(board, s + [(l1, p)]), SnapCircuitState(board, s + [(l1, q)])))
    if not any(x[0] == l1 and x[1].id == 3 for x in s):
        pairs.append((SnapCircuitState(board, s + [(l1, p)]), SnapCircuitState(board, s)))
    pairs.append((SnapCircuitState(board, s), SnapCircuitState((board[0] + 1, board[1]), s)))
    if board[0] != board[1] and not s:
        pairs.append((SnapCircuitState(board, s), SnapCircuitState(board[::-1], s)))
    pairs.append((PlaceAction(board, p, l1), PlaceAction(board, p, l2)))
    pairs.append((PlaceAction(board, p, l1), PlaceAction(board, SnapCircuitPart(4, 'p'), l1)))
    a = [AbstractAction('a{}'.format(i)) for i in range(3)]
    for group in (list, tuple):
        pairs.append((MetaAction('sequence', group(a)), MetaAction('sequence', group(a[::-1]))))
        pairs.append((MetaAction('sequence', group(a)), MetaAction('parallel', group(a))))
        pairs.append((MetaAction('sequence', group(a)), MetaAction('sequence', group(a[:2]))))
    pairs.append((MetaAction('parallel', set(a)), MetaAction('parallel', set(a[:2]))))
    pairs.append((MetaAction('parallel', set(a)), MetaAction('alternative', set(a))))
    ma = MetaAction('sequence', a)
    pairs.append((ma, AbstractAction(ma.name)))
    from task_models import supportive, bring_next_to_pomdp, task_to_pomdp
    leg = supportive.AssembleLeg('x')
    leg.name = ma.name
    for other in (leg, bring_next_to_pomdp.CollaborativeAction(ma.name, 'o'),
                  task_to_pomdp.CollaborativeAction(ma.name, (1., 2., 3.))):
        pairs.append((other, ma))
        pairs.append((MetaAction('parallel', {other}), MetaAction('parallel', {ma})))
    pairs.append((MetaAction('sequence', [ma]), MetaAction('sequence', [AbstractAction(ma.name)])))
    pairs.append((MetaAction('sequence', [ma]), ma))
    pairs.append((AbstractAction('a'), AbstractAction('A')))
    case.key(n, tuple(v), board)
    for x, y in pairs:
        case.check(not (x == y) and not (y == x) and x != y and y != x, '{!r} equals {!r} ({}, {})', x, y,
                   type(x).__name__, type(y).__name__)
        case.check(len({x, y}) == 2 and x not in {y} and x not in [y], 'a set takes {!r} and {!r} for one', x, y)
        case.check(x == x and not (x != x), '{!r} differs from itself', x)
        case.event('near-miss')


def run(ctx):
    ctx.cases('pools', ctx.n(7000, 28000), pools)
    ctx.cases('near-misses', ctx.n(2100, 8400), near_misses)
    for e, m in (('equal-pair', 3000), ('unequal-pair', 10000), ("triple", 1000), ('containers', 300),
                 ('near-miss', 3000), ('copied', 300)):
        ctx.require(e, m)
