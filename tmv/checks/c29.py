"""C29: snap-circuit features and conditions reflect the board."""
import itertools

import numpy as np

PROPERTY = 'C29'
RULE = ('boards of all shapes with random parts (repeated identifiers, shared locations, all orders of listing) and random '
        'conditions and actions: features, presence, absence, placing and generic conditions against set membership and '
        'element-wise comparison. Non-trivial: distinct boards, conditions and states.')
ASSUMPTIONS = []


def run(ctx):
    ctx.cases('boards', ctx.n(3600, 30000), boards)
    ctx.cases('paths', ctx.n(900, 6000), paths)
    ctx.cases('generic', ctx.n(7500, 60000), generic)
    for e, m in (('board', 1000), ('empty board', 50), ('part placed', 3000), ('orders of listing', 1500),
                 ('presence holds', 1000), ('presence fails', 1000), ('absence holds', 1000), ('absence fails', 1000),
                 ('near miss', 1000), ('placing admitted', 300), ('placing refused', 1000), ('path admitted', 200),
                 ('path refused', 200), ('generic holds', 500), ('generic fails', 1000), ('condition refused', 500),
                 ('exposed parts altered', 1000), ('match all', 200)):
        ctx.require(e, m)


def random_parts(case, board):
    """[(location, part)]"""
    from task_models.snap_circuit import SnapCircuitPart, SnapCircuitState
    r = case.rng
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 20])
    pool = r.choice([20, 20, 3, 1])
    ids = r.sample(range(20), min(20, pool))
    out = []
    for _ in range(n):
        i = r.choice(ids)
        loc = (r.randrange(board[0]), r.randrange(board[1]), r.randrange(4))
        if out and r.random() < .2:
            loc = r.choice(out)[0]
        out.append((loc, SnapCircuitPart(i, r.choice(['wire', '2', 'led']))))
    return out


def near(case, board, loc, i):
    """A location or part that differs a little (swapped coordinates, neighbours, other orientation)."""
    r = case.rng
    x, y, o = loc
    c = [((x, y, (o + 1) % 4), i), ((x, y, (o + 2) % 4), i), ((x, y, o), (i + 1) % 20), ((x, y, o), (i - 1) % 20)]
    if x + 1 < board[0]:
        c.append(((x + 1, y, o), i))
    if x > 0:
        c.append(((x - 1, y, o), i))
    if y + 1 < board[1]:
        c.append(((x, y + 1, o), i))
    if y > 0:
        c.append(((x, y - 1, o), i))
    if y < board[0] and x < board[1]:
        c.append(((y, x, o), i))
    return r.choice(c)


def random_board(case):
    r = case.rng
    return (r.choice([1, 1, 2, 3, 5, 7, 9]), r.choice([1, 1, 2, 3, 5, 8, 10]))


def ones(parts):
    return set((int(p.id),) + tuple(l) for l, p in parts)


def expected_features(board, parts):
    """Flat list."""
    have = ones(parts)
    return [1. if k in have else 0.
            for k in itertools.product(range(20), range(board[0]), range(board[1]), range(4))]


def check_features(case, state, board, parts, what):
    n = 20 * board[0] * board[1] * 4
    f = state.get_features()
    case.check(np.shape(f) == (n,), '{}: features of shape {} for {} locations', what, np.shape(f), n)
    case.check(list(f) == expected_features(board, parts), '{}: features {} of parts {} on {}', what,
               np.flatnonzero(f)[:20], parts, board)
    case.equal(int(state.n_dim), n, what + ': number of features')
    return f


def boards(case):
    from task_models.snap_circuit import SnapCircuitState, SnapCircuitPart, PartPresenceCondition, PlaceAction
    from task_models import snap_circuit
    r = case.rng
    board = random_board(case)
    parts = random_parts(case, board)
    container = r.choice([list, tuple, set, frozenset, iter])
    state = SnapCircuitState(board, container(parts))
    case.note(board=board, parts=[(l, p.id, p.label) for l, p in parts])
    check_features(case, state, board, parts, 'board')
    case.check(state.features.shape == (20, board[0], board[1], 4), 'shape of features {}', state.features.shape)
    case.check(list(state.features.flatten()) == list(state.get_features()), 'features are not the feature vector')
    case.equal(tuple(int(x) for x in SnapCircuitState.feature_shape(board)), (20, board[0], board[1], 4), 'feature shape')
    case.equal(set(state.parts), set(parts), 'parts of the board')
    case.event('board')
    if not parts:
        case.event('empty board')
    case.event('part placed', len(parts))
    # the order in which parts are listed does not matter
    for _ in range(2):
        again = list(parts) + ([r.choice(parts)] if parts else [])
        r.shuffle(again)
        other = SnapCircuitState(board, again)
        case.check(other == state and state == other, 'the same parts make another board')
        case.equal(hash(other), hash(state), 'hash')
        check_features(case, other, board, parts, 'parts in another order')
        case.event('orders of listing')
    # nothing that the state exposes alters it
    exposed = state.parts
    try:
        r.choice([lambda: exposed.clear(), lambda: exposed.add(((0, 0, 0), SnapCircuitPart(7, 'x'))),
                  lambda: exposed.pop() if exposed else None])()
    except AttributeError:
        pass        # immutable: as good
    f = state.get_features()
    g = state.features
    for v in (f, g):
        try:
            v[...] = r.choice([0., 1., 3.])
        except ValueError:
            pass
    before = hash(state)
    check_features(case, state, board, parts, 'after alterations of what it exposed')
    case.equal(set(state.parts), set(parts), 'parts after alterations of what was exposed')
    case.equal(hash(state), before, 'hash after alterations')
    case.event('exposed parts altered')
    if isinstance(parts, list) and parts:
        given = list(parts)
        s2 = SnapCircuitState(board, given)
        given.pop()
        check_features(case, s2, board, parts, 'after an alteration of the given list')
    # conditions and actions
    other_parts = random_parts(case, board)
    other = SnapCircuitState(board, other_parts)
    queries = [(l, p) for l, p in r.sample(parts, min(3, len(parts)))]
    queries += [(l, p) for l, p in r.sample(other_parts, min(2, len(other_parts)))]
    for l, p in list(queries):
        l2, i2 = near(case, board, l, int(p.id))
        queries.append((l2, SnapCircuitPart(i2, p.label)))
        case.event('near miss')
    queries.append(((r.randrange(board[0]), r.randrange(board[1]), r.randrange(4)), SnapCircuitPart(r.randrange(20), 'q')))
    for loc, p in queries:
        if r.random() < .3:
            loc = list(loc)
        cond = {b: PartPresenceCondition(board, p, loc, is_there=b) for b in (True, False)}
        if r.random() < .3:
            cond[True] = PartPresenceCondition(board, p, loc)
        act = PlaceAction(board, p, loc)
        states = [(state, parts), (other, other_parts)]
        without = [x for x in parts if (int(x[1].id),) + tuple(x[0]) != (int(p.id),) + tuple(loc)]
        states.append((SnapCircuitState(board, without), without))
        with_ = without + [(tuple(loc), p)]
        states.append((SnapCircuitState(board, with_), with_))
        for s, ps in states:
            there = (int(p.id),) + tuple(loc) in ones(ps)
            for b in (True, False):
                case.equal(bool(cond[b].check(s)), there == b, '{} of part {} at {} on {} with {}'.format(
                    'presence' if b else 'absence', p.id, loc, board, sorted(ones(ps))))
                case.event(('presence ' if b else 'absence ') + ('holds' if there == b else 'fails'))
            for t, pt in states:
                there2 = (int(p.id),) + tuple(loc) in ones(pt)
                ok = not there and there2
                case.equal(bool(act.check(s, t)), ok, 'placing part {} at {} from {} to {}'.format(
                    p.id, loc, sorted(ones(ps)), sorted(ones(pt))))
                case.event('placing admitted' if ok else 'placing refused')
        case.equal(tuple(act.position), tuple(loc)[:2], 'position of the action')
        case.equal(act.orientation, loc[2], 'orientation of the action')
        case.equal(act.part, p, 'part of the action')
        case.equal(tuple(act.location), tuple(loc), 'location of the action')
        case.check(p.label in act.name and snap_circuit.ORIENTATION_NAMES[loc[2]] in act.name, 'name {!r} of the action',
                   act.name)
        check_features(case, state, board, parts, 'after checks')
    text = str(state)
    for l, p in parts:
        case.check(str(p) in text, '{} is missing from {}', p, text)
    case.key(board, sorted(ones(parts)), sorted(ones(other_parts)))


def paths(case):
    """Building a circuit part after part is a valid path of a task graph; skipping or mixing steps is not."""
    from task_models.snap_circuit import SnapCircuitState, SnapCircuitPart, PlaceAction
    from task_models.task import TaskGraph, check_path
    r = case.rng
    board = random_board(case)
    n = r.randint(1, 6)
    placed, path, seen = [], [SnapCircuitState(board, [])], set()
    for _ in range(n):
        loc = (r.randrange(board[0]), r.randrange(board[1]), r.randrange(4))
        part = SnapCircuitPart(r.randrange(20), 'p')
        if (part.id,) + loc in seen:
            continue
        seen.add((part.id,) + loc)
        placed.append((loc, part))
        path += [PlaceAction(board, part, loc), SnapCircuitState(board, placed)]
    case.note(board=board, placed=[(l, p.id) for l, p in placed])
    g = TaskGraph()
    g.add_path(path)
    case.check(check_path(path), 'the path built part after part is refused')
    case.check(g.has_path(path), 'the path built part after part is not found')
    case.event('path admitted')
    acts = path[1::2]
    for a, s, t in zip(acts, path[::2], path[2::2]):
        case.check(a.check(s, t), 'a step of the path is refused')
        case.check(not a.check(t, s), 'a step of the path is admitted backwards')
        case.check(not a.check(s, s) and not a.check(t, t), 'placing without a change is admitted')
    if len(acts) > 1:
        i = r.randrange(len(acts) - 1)
        wrong = list(path)
        wrong[2 * i + 1], wrong[2 * i + 3] = wrong[2 * i + 3], wrong[2 * i + 1]
        case.check(not check_path(wrong), 'a path with two actions swapped is accepted')
        case.check(not acts[i + 1].check(path[2 * i], path[2 * i + 2]), 'the action of another step is admitted')
        case.event('path refused')
    case.key(board, [(l, p.id) for l, p in placed])


def generic(case):
    from task_models.action import Condition, MatchAllCondition, PrePostConditionAction
    from task_models.state import NDimensionalState
    r = case.rng
    n = r.choice([0, 1, 2, 3, 5, 12])
    values = r.choice([[0, 1], [-1, 0, 1], [0., .5, 1.], [0, 1, 2, 3, -7], [0., 1e-9, 1e9]])
    dtype = r.choice([float, float, int, np.int8, np.float32]) if all(float(v).is_integer() and abs(v) < 100
                                                                      for v in values) else float
    mask = [r.randrange(2) for _ in range(n)]
    if r.random() < .15:
        mask = [r.choice([0, 1])] * n
    value = [r.choice(values) if m else 0 for m in mask]
    bad = [i for i in range(n) if not mask[i]]
    mtype = r.choice([float, int, bool, np.int8])
    case.note(mask=mask, value=value, dtype=str(dtype), mtype=str(mtype))
    if bad and r.random() < .4:
        wrong = list(value)
        for i in r.sample(bad, r.randint(1, min(2, len(bad)))):
            wrong[i] = r.choice([v for v in values if v != 0])
        case.raises(ValueError, lambda: Condition(np.array(mask, dtype=mtype), np.array(wrong, dtype=dtype)),
                    'condition with mask {} and value {}'.format(mask, wrong))
        case.event('condition refused')
    mask_, value_ = np.array(mask, dtype=mtype), np.array(value, dtype=dtype)
    cond = Condition(mask_, value_)
    states = []
    for _ in range(6):
        s = [r.choice(values) for _ in range(n)]
        if r.random() < .6:
            s = [v if m else x for v, m, x in zip(value, mask, s)]
            if n and r.random() < .4:
                i = r.randrange(n)
                s[i] = r.choice(values)
        st = NDimensionalState(np.array(s, dtype=dtype))
        exp = all(x == v for x, v, m in zip(s, value, mask) if m)
        case.equal(bool(cond.check(st)), exp, 'condition with mask {} and value {} on {}'.format(mask, value, s))
        case.event('generic holds' if exp else 'generic fails')
        case.check(MatchAllCondition().check(st), 'the condition that matches all does not match {}', s)
        case.event('match all')
        case.equal([x for x in st.get_features()], [x for x in np.array(s, dtype=dtype)], 'features after a check')
        case.equal(int(st.n_dim), n, 'number of features')
        states.append((st, exp))
    case.check(list(mask_) == list(np.array(mask, dtype=mtype)) and list(value_) == list(np.array(value, dtype=dtype)),
               'the condition altered its mask or value')
    # an action is admitted when both its conditions hold
    v2 = [r.choice(values) if m else 0 for m in mask]
    post = r.choice([Condition(mask_, np.array(v2, dtype=dtype)), MatchAllCondition(), cond])
    act = PrePostConditionAction(cond, post, 'act')
    for (s, e1), (t, e2) in itertools.product(states[:3], states[3:]):
        if isinstance(post, MatchAllCondition):
            e = e1
        elif post is cond:
            e = e1 and e2
        else:
            e = e1 and all(x == v for x, v, m in zip(t.get_features(), v2, mask) if m)
        case.equal(bool(act.check(s, t)), bool(e), 'action from {} to {}'.format(s.get_features(), t.get_features()))
    case.key(mask, value, v2)
