"""States, actions and graphs for the checks of task.py, with reference keys that do not use the library's
equality, hashing or checks."""
import itertools

import numpy as np

from . import gen


# -- states ---------------------------------------------------------------
def features_of(key):
    """Reference feature vector (tuple) of a state key."""
    kind = key[0]
    if kind == 'vec' or kind == 'own':
        return key[1]
    _, board, parts = key
    n, k = 20, 4
    f = np.zeros((n, board[0], board[1], k))
    for loc, (pid, _) in parts:
        f[(pid,) + tuple(loc)] = 1
    return tuple(f.flatten())


class World(object):
    """A family of states that can occur in one graph and actions over them.

    state(key) builds a new, possibly differently represented, object each time; keys identify what it stands for.
    """

    def __init__(self, case, kind=None, n=None):
        from task_models.action import Action
        from task_models.state import State
        self.case = case
        rng = self.rng = case.rng
        self.kind = kind or rng.choice(['vec', 'vec', 'circuit', 'own'])
        self.allowed = {}
        world = self

        class OwnState(State):
            def __init__(self, vector):
                self.vector = tuple(vector)

            def get_features(self):
                return np.array(self.vector)

            def __hash__(self):
                return hash(self.vector) % world.modulo     # collisions

            def __eq__(self, other):
                return isinstance(other, OwnState) and self.vector == other.vector

        class OwnAction(Action):
            def __init__(self, name, table):
                super(OwnAction, self).__init__(name)
                self.table = table

            def __hash__(self):
                return hash(self.name) % world.modulo

            def __eq__(self, other):
                return isinstance(other, OwnAction) and self.name == other.name

            def check(self, before, after):
                return world.reference(('own', self.name, self.table), before, after)

        self.OwnState, self.OwnAction = OwnState, OwnAction
        self.modulo = rng.choice([1, 3, 2 ** 31])
        n = n or rng.randint(1, 7)
        if self.kind == 'circuit':
            self.board = (rng.randint(1, 3), rng.randint(1, 3))
            # ids only identify parts: labels may be shared
            self.parts = [(i, rng.choice(['part', 'p{}'.format(i)])) for i in rng.sample(range(20), 3)]
            self.spots = [(rng.randrange(self.board[0]), rng.randrange(self.board[1]), rng.randrange(4))
                          for _ in range(3)]
            keys = set()
            for _ in range(3 * n):
                k = frozenset((rng.choice(self.spots), rng.choice(self.parts)) for _ in range(rng.randint(0, 3)))
                keys.add(('circuit', self.board, k))
            self.dim = 20 * self.board[0] * self.board[1] * 4
        else:
            self.dim = rng.randint(1, 4)
            values = rng.choice([(0, 1), (0, 1, 2), (-1, 0, .5)])
            keys = set()
            for _ in range(3 * n):
                keys.add((self.kind if self.kind == 'own' else 'vec',
                          tuple(float(rng.choice(values)) for _ in range(self.dim))))
        self.keys = sorted(keys, key=repr)
        rng.shuffle(self.keys)
        self.keys = self.keys[:n]
        self.built = []             # keeps (object, key): identity of foreign objects in reports

    def state(self, key):
        rng = self.rng
        if key[0] == 'own':
            s = self.OwnState(key[1])
        elif key[0] == 'vec':
            s = self.vector_state(key[1])
        else:
            from task_models.snap_circuit import SnapCircuitState, SnapCircuitPart
            parts = [(loc, SnapCircuitPart(*p)) for loc, p in key[2]]
            rng.shuffle(parts)
            s = SnapCircuitState(key[1], parts)
        return s

    def vector_state(self, values):
        from task_models.state import NDimensionalState
        v = np.array(values, dtype=float)
        c = self.rng.randrange(4)
        if c == 0 and all(float(x).is_integer() for x in values):
            v = v.astype(int)
        elif c == 1:
            v[v == 0] = -0.
        elif c == 2:
            v = np.concatenate([v, [9.]])[:-1]      # a view
        return NDimensionalState(v)

    def key_of(self, state):
        """Key of a state object of this world (from its own data)."""
        if isinstance(state, self.OwnState):
            return ('own', tuple(float(x) for x in state.vector))
        from task_models.snap_circuit import SnapCircuitState
        if isinstance(state, SnapCircuitState):
            return ('circuit', (state.board_rows, state.board_cols),
                    frozenset((tuple(loc), (p.id, p.label)) for loc, p in state.parts))
        return ('vec', tuple(float(x) + 0. for x in state.get_features()))

    # -- actions ----------------------------------------------------------
    def random_condition(self, key=None):
        """A condition; when key is given the state of that key satisfies it."""
        rng = self.rng
        if rng.random() < .25:
            return None
        mask = np.array([float(rng.random() < min(.5, 6. / self.dim)) for _ in range(self.dim)])
        ref = np.array(features_of(key if key is not None else rng.choice(self.keys)))
        return (tuple(mask), tuple(mask * ref))

    def random_action(self, pre=None, post=None):
        rng = self.rng
        c = rng.random()
        i = rng.randrange(6)
        if c < .2:
            return ('abstract', 'a{}'.format(i))
        if c < .3:
            name = 'm{}'.format(i)
            return ('meta', rng.choice(['sequence', 'parallel', 'alternative']), (name, 'x'))
        if c < .5:
            table = frozenset((k1, k2) for k1 in self.keys for k2 in self.keys if rng.random() < .6)
            if pre is not None:
                table |= {(pre, post)}
            return ('own', 'o{}-{}'.format(i, len(self.allowed)), self.table(table))
        if c < .6 and self.kind == 'circuit':
            return ('place', self.board, rng.choice(self.parts), rng.choice(self.spots))
        return ('cond', self.random_condition(pre), self.random_condition(post), 'c{}'.format(i))

    def table(self, pairs):
        t = len(self.allowed)
        self.allowed[t] = pairs
        return t

    def condition(self, c):
        from task_models.action import Condition, MatchAllCondition
        if c is None:
            return MatchAllCondition()
        mask, value = np.array(c[0]), np.array(c[1])
        r = self.rng.randrange(3)
        if r == 0:
            mask = mask.astype(int)
        elif r == 1:
            value = value * 1.
            value[value == 0] = -0.
        return Condition(mask, value)

    def action(self, akey):
        from task_models.action import PrePostConditionAction
        from task_models.task import AbstractAction, MetaAction
        kind = akey[0]
        if kind == 'abstract':
            return AbstractAction(akey[1])
        if kind == 'meta':
            return MetaAction(akey[1], [AbstractAction(n) for n in akey[2]])
        if kind == 'own':
            return self.OwnAction(akey[1], akey[2])
        if kind == 'place':
            from task_models.snap_circuit import PlaceAction, SnapCircuitPart
            return PlaceAction(akey[1], SnapCircuitPart(*akey[2]), akey[3])
        return PrePostConditionAction(self.condition(akey[1]), self.condition(akey[2]), name=akey[3])

    def action_identity(self, akey):
        """Two action keys stand for equal actions iff these are equal."""
        if akey[0] == 'cond':
            return ('cond', self.condition_identity(akey[1]), self.condition_identity(akey[2]))
        if akey[0] == 'place':
            _, board, (pid, _), loc = akey
            f = np.zeros((20, board[0], board[1], 4))
            f[(pid,) + tuple(loc)] = 1
            m = tuple(f.flatten())
            return ('cond', (m, tuple(np.zeros(len(m)))), (m, m))
        return akey[:3] if akey[0] == 'meta' else akey[:2]

    @staticmethod
    def condition_identity(c):
        return None if c is None else (tuple(float(x) + 0. for x in c[0]), tuple(float(x) + 0. for x in c[1]))

    def admits(self, akey, k1, k2):
        """Reference for Action.check on the states of keys k1 and k2."""
        kind = akey[0]
        if kind in ('abstract', 'meta'):
            return True
        if kind == 'own':
            return (k1, k2) in self.allowed[akey[2]]
        _, pre, post = self.action_identity(akey)
        return self.holds(pre, k1) and self.holds(post, k2)

    @staticmethod
    def holds(cond, key):
        if cond is None:
            return True
        mask, value = cond
        return all(f * m == v for f, m, v in zip(features_of(key), mask, value))

    def reference(self, akey, before, after):
        return self.admits(akey, self.key_of(before), self.key_of(after))

    # -- paths ------------------------------------------------------------
    def valid_path(self, length, actions=None):
        """Random valid path of keys with the given number of actions, built by walking."""
        rng = self.rng
        path = [rng.choice(self.keys)]
        for _ in range(length):
            k1 = path[-1]
            k2 = rng.choice(self.keys)
            a = None
            if actions:
                ok = [x for x in actions if self.admits(x, k1, k2)]
                a = rng.choice(ok) if ok else None
            if a is None:
                for _ in range(4):
                    a = self.random_action(k1, k2)
                    if self.admits(a, k1, k2):
                        break
                else:
                    a = ('abstract', 'a{}'.format(rng.randrange(6)))
            path += [a, k2]
        return path

    def build(self, path):
        r = [self.state(x) if i % 2 == 0 else self.action(x) for i, x in enumerate(path)]
        return tuple(r) if self.rng.random() < .3 else r
