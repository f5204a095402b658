"""Replays the recorded simulations of the online planner on a shadow tree.

The recorder logs every simulated transition (and every belief sampling, whose own transitions are left out). The
shadow recomputes, from that log alone, which nodes exist and their visit counts and running averages."""
import contextlib
import math

import numpy as np

from .core import Violation

ALPHA = .001        # default weight of the latest value in the running averages


class Log(list):
    """Events: ('t', a, s, new_s, o, r) and ('b', a, o, ok) (a belief was sampled)."""

    def __init__(self):
        super().__init__()
        self.sampling = 0
        self.hooks = []


@contextlib.contextmanager
def recorded(model, log=None):
    from task_models.lib.belief import ParticleBelief, MaxSamplesReached
    log = Log() if log is None else log
    orig = model.sample_transition
    orig_succ = ParticleBelief.successor

    def sample_transition(a, s):
        res = orig(a, s)
        if not log.sampling:
            log.append(('t', int(a), int(s), int(res[0]), int(res[1]), float(res[2])))
        return res

    def successor(self, model, a, o):
        log.sampling += 1
        ok = True
        try:
            return orig_succ(self, model, a, o)
        except MaxSamplesReached:
            ok = False
            raise
        finally:
            log.sampling -= 1
            log.append(('b', int(a), int(o), ok))

    model.sample_transition = sample_transition
    ParticleBelief.successor = successor
    try:
        yield log
    finally:
        ParticleBelief.successor = orig_succ
        del model.sample_transition


class NTransitions:
    """Reference horizons."""

    def __init__(self, n):
        self.n = n

    def reached(self):
        return self.n <= 0

    def dec(self, s, ns):
        self.n -= 1

    def copy(self):
        return NTransitions(self.n)


class FinishedOrN(NTransitions):

    def __init__(self, n, final):
        self.n = n
        self.final = final
        self.done = False

    def reached(self):
        return self.n <= 0 or self.done

    def dec(self, s, ns):
        self.n -= 1
        self.done = self.final(ns)

    def copy(self):
        h = FinishedOrN(self.n, self.final)
        h.done = self.done
        return h


class NSteps:
    """Changes of the task step."""

    def __init__(self, n, step, final):
        self.n, self.step, self.final = n, step, final
        self.done = False

    def reached(self):
        return self.n <= 0 or self.done

    def dec(self, s, ns):
        if self.step(s) != self.step(ns):
            self.n -= 1
        if self.final(ns):
            self.done = True

    def copy(self):
        h = NSteps(self.n, self.step, self.final)
        h.done = self.done
        return h


class Stat:

    def __init__(self, alpha):
        self.alpha, self.n, self.value = alpha, 0, 0.

    def update(self, v):
        self.value = (1 - self.alpha) * (self.n * self.value + v) / (self.n + 1) + self.alpha * v
        self.n += 1


class Shadow:

    def __init__(self, case, tree, n_actions, discount, horizon, rollout_it=1, shared=False, alpha=ALPHA):
        self.case, self.tree, self.n_actions, self.discount = case, tree, n_actions, discount
        self.horizon, self.rollout_it, self.shared, self.alpha = horizon, rollout_it, shared, alpha
        self.stats = {}             # key of node -> Stat
        self.links = {}             # key of action node -> set of observations
        self.first = {}             # key of node -> {state: count}: states simulations started from
        self.beliefs = {}
        self.on_choice = None       # callback(shadow, key, action)
        self.simulations = 0
        self.max_depth = 0

    # -- keys: the path for a tree, the belief when histories of equal belief share a node
    def key(self, real, path):
        if self.shared:
            return ('b', (np.asarray(real.belief.array, dtype=float) + 0.).tobytes())
        return ('p',) + tuple(path)

    def stat(self, key):
        if key not in self.stats:
            self.stats[key] = Stat(self.alpha)
        return self.stats[key]

    def akey(self, key, a):
        return ('a', key, a)

    def child(self, real, key, a, o):
        """The real child node and its key."""
        act = real.children[a]
        if act is None or o not in act.children:
            raise Violation('no node in the tree for action {} and observation {}, which were simulated'.format(a, o))
        r = act.children[o]
        return r, self.key(r, key[1:] + (a, o) if not self.shared else ())

    def visited(self, key, a):
        s = self.stats.get(self.akey(key, a))
        return 0 if s is None else s.n

    # -- replay
    def feed(self, log, pos, real, path, limit, action=None):
        """Replays simulations from a node until the end of the log; returns their number."""
        key = self.key(real, path)
        n = 0
        while pos < len(log):
            if n >= limit:
                raise Violation('more than {} simulations were run'.format(limit))
            pos = self.simulate(log, pos, real, path, action)
            n += 1
        return n

    def simulate(self, log, pos, real, path, action=None):
        self.log = log
        self.pos = pos
        key = self.key(real, path)
        h = self.horizon()
        if h.reached():
            return self.pos
        s = log[pos][2] if log[pos][0] == 't' else None
        self.started(real, key, s)
        self.simulations += 1
        self._simulate(real, key, h, s, action, 0)
        return self.pos

    def started(self, real, key, s):
        if s is None:
            return
        b = real.belief.array
        if not b[s] > 0:
            raise Violation('a simulation starts from state {}, which has probability zero in the belief of the '
                            'node'.format(s))
        d = self.first.setdefault(key, {})
        d[s] = d.get(s, 0) + 1
        self.beliefs[key] = b

    def next(self, kind, what):
        if self.pos >= len(self.log):
            raise Violation('simulation stopped too early: ' + what + ' expected')
        e = self.log[self.pos]
        if e[0] != kind:
            raise Violation('{} expected, {} happened'.format(what, e))
        self.pos += 1
        return e

    def _simulate(self, real, key, h, s, action, depth):
        if h.reached():
            return self.stat(key).value
        self.max_depth = max(self.max_depth, depth + 1)
        _, a, s0, ns, o, r = self.next('t', 'a transition')
        if s0 != s:
            raise Violation('a simulation continues from state {} after reaching state {}'.format(s0, s))
        if action is not None and a != action:
            raise Violation('action {} simulated instead of {}'.format(a, action))
        if self.on_choice is not None and action is None:
            self.on_choice(self, key, a, real)
        h.dec(s, ns)
        akey = self.akey(key, a)
        links = self.links.setdefault(akey, set())
        if o not in links:
            ok = True
            if self.pos < len(self.log) and self.log[self.pos][0] == 'b':
                e = self.next('b', 'sampling of a belief')
                if e[1:3] != (a, o):
                    raise Violation('belief sampled for action and observation {} instead of {}'.format(
                        e[1:3], (a, o)))
                ok = e[3]
            partial = 0.
            if ok:
                links.add(o)
                child, ckey = self.child(real, key, a, o)
                self.stat(ckey)
                partial = self.rollouts(child, ckey, h)
        else:
            child, ckey = self.child(real, key, a, o)
            partial = self._simulate(child, ckey, h, ns, None, depth + 1)
        ret = r + self.discount * partial
        self.stat(akey).update(ret)
        self.stat(key).update(ret)
        return ret

    def rollouts(self, real, key, h):
        if h.reached():
            return 0.
        total = 0.
        for _ in range(self.rollout_it):
            hh = h.copy()
            g = 1.
            s = None
            while not hh.reached():
                _, a, s0, ns, o, r = self.next('t', 'a rollout transition')
                if not 0 <= a < self.n_actions:
                    raise Violation('unknown action {} in a rollout'.format(a))
                if s is None:
                    self.started(real, key, s0)
                elif s != s0:
                    raise Violation('a rollout continues from state {} after reaching state {}'.format(s0, s))
                hh.dec(s0, ns)
                total += g * r
                g *= self.discount
                s = ns
        total /= self.rollout_it
        self.stat(key).update(total)
        return total

    def stepped(self, path):
        """The runner moved to the node of this path (which may have been created)."""
        real, key = self.tree.root, None
        for i in range(0, len(path), 2):
            a, o = path[i], path[i + 1]
            key = self.key(real, path[:i])
            self.links.setdefault(self.akey(key, a), set()).add(o)
            real = real.children[a].children[o]

    # -- comparison with the real tree
    def compare(self, tol=1e-9):
        """Walks the real tree; returns the number of visited nodes compared."""
        case = self.case
        seen, n = set(), 0
        reached = set()
        stack = [(self.tree.root, ())]
        while stack:
            real, path = stack.pop()
            key = self.key(real, path)
            if self.shared:
                if key in seen:
                    continue
                seen.add(key)
            reached.add(key)
            self.node(real, key, 'node {}'.format(path), tol)
            n += 1
            for a, act in enumerate(real.children):
                if act is None:
                    continue
                akey = self.akey(key, a)
                reached.add(akey)
                what = 'action {} of node {}'.format(a, path)
                self.node(act, akey, what, tol)
                case.equal(sorted(act.children), sorted(self.links.get(akey, ())),
                           'observations below {}'.format(what))
                for o, c in act.children.items():
                    stack.append((c, path + (a, o)))
        for k, s in self.stats.items():
            case.check(s.n == 0 or k in reached, 'a visited node is not in the tree any more: {}', k)
        return n

    def node(self, real, key, what, tol):
        s = self.stats.get(key)
        n, v = (s.n, s.value) if s else (0, 0.)
        self.case.equal(real.n_simulations, n, 'visits of {}'.format(what))
        if abs(real.value - v) > tol * (1 + abs(v)):
            raise Violation('value of {}: got {!r}, the simulations imply {!r}'.format(what, real.value, v))


def snapshot(tree):
    """Visits and values of every visited node: (path) -> (n, value). For unshared and shared trees."""
    out, seen = {}, set()
    stack = [(tree.root, ())]
    while stack:
        node, path = stack.pop()
        if id(node) in seen:
            continue
        seen.add(id(node))
        out[path] = (node.n_simulations, node.value)
        for a, act in enumerate(node.children):
            if act is not None:
                if act.n_simulations:
                    out[path + (a,)] = (act.n_simulations, act.value)
                for o, c in act.children.items():
                    stack.append((c, path + (a, int(o))))
    return out


def small_model(case, max_s=5, max_a=4, max_o=3, style=None, **kw):
    from . import gen
    r = case.np
    parts = gen.pomdp_parts(case, s=r.randint(1, max_s + 1), a=r.randint(1, max_a + 1), o=r.randint(1, max_o + 1),
                            style=style, **kw)
    return parts, gen.make_pomdp(parts)


def augmented(values, ns, n, c, relative):
    if relative:
        c = c * (max(values) - min(values))
    return [v + c * math.sqrt(math.log(n) / k) for v, k in zip(values, ns)]


def quiet(*args, **kwargs):
    pass
