"""C17: background planning is race-free and always stops."""
import gc
import os
import random
import sys
import threading
import time
import weakref

import numpy as np

from .. import core, gen, pomcpref
from . import c11

PROPERTY = 'C17'
RULE = ('random models and sequences of calls on the background planner, with delays injected in the simulator, short '
        'thread switch intervals and forced schedules (explorer held inside a simulation, exclusive work held open). '
        'A global event log is checked: no two simulations overlap, no exclusive work or tree extension falls inside '
        'one, every simulation starts from the node of the real history, and replaying the log sequentially gives '
        'the statistics found. Non-trivial: distinct (calls, interleaving of simulations and calls).')
ASSUMPTIONS = ['the pause of the explorer between simulations is shortened to obtain more interleavings',
               'a stop that has not returned after 30 s, or after 200 further simulations with the pauses of the library, never returns']

_sleep = time.sleep
LIBRARY = os.path.join(os.path.realpath(core.REPO), 'task_models')


def run(ctx):
    threading.excepthook = lambda args: None
    ctx.cases('session', ctx.n(1500, 12000), session, wall=100)
    ctx.cases('forced', ctx.n(190, 800), forced, wall=100)
    ctx.cases('stopping', ctx.n(360, 2400), stopping, wall=100)
    ctx.cases('failing', ctx.n(120, 600), failing, wall=100)
    ctx.require('background simulations', 500)
    ctx.require('transitions replayed', 2000)
    ctx.require('calls during exploration', 40)
    ctx.require('exclusive work', 50)
    ctx.require('stops', 100)
    ctx.require('collected while simulating', 5)
    ctx.require('greedy actions', 50)


class Monitor:
    """Logs, for one model: simulations, transitions, tree extensions, and the calls of the harness."""

    def __init__(self, case, model, delay=0., line_delays=0.):
        self.case, self.model, self.delay = case, model, delay
        self.log = []
        self.sampling = set()
        self.gate = None            # called in every simulated transition
        self.main = threading.get_ident()
        self.rng = np.random.RandomState(case.seed % 2 ** 31)
        self.fault = None
        self.line_delays = line_delays
        self.delay_rng = random.Random(case.seed)
        self.lines = 0

    def add(self, *event):
        self.log.append((threading.get_ident(),) + event)

    def __enter__(self):
        from task_models.lib import pomcp, belief
        mon, model = self, self.model
        self.saved = (pomcp._SearchTree.simulate_from_node, pomcp._SearchTree.get_node,
                      belief.ParticleBelief.successor, sys.getswitchinterval(), time.sleep)
        sim, get, succ = self.saved[:3]
        orig = model.sample_transition

        def simulate_from_node(tree, node, action=None):
            if tree.model is not model:
                return sim(tree, node, action=action)
            mon.add('sim+', node, action)
            try:
                return sim(tree, node, action=action)
            finally:
                mon.add('sim-')

        def get_node(tree, history):
            if tree.model is not model:
                return get(tree, history)
            mon.add('get+')
            try:
                n = get(tree, history)
                mon.add('get', [int(h) for h in history])
                return n
            finally:
                mon.add('get-')

        def successor(b, m, a, o):
            if m is not model:
                return succ(b, m, a, o)
            me = threading.get_ident()
            mon.sampling.add(me)
            ok = False
            try:
                r = succ(b, m, a, o)
                ok = True
                return r
            finally:
                mon.sampling.discard(me)
                mon.add('b', int(a), int(o), ok)

        def sample_transition(a, s):
            r = orig(a, s)
            if mon.gate is not None:
                mon.gate()
            if mon.fault is not None:
                mon.fault()
            if threading.get_ident() not in mon.sampling:
                mon.add('t', int(a), int(s), int(r[0]), int(r[1]), float(r[2]))
                if mon.delay and mon.rng.rand() < mon.delay:
                    _sleep(mon.rng.rand() * 1e-3)
            return r

        pomcp._SearchTree.simulate_from_node = simulate_from_node
        pomcp._SearchTree.get_node = get_node
        belief.ParticleBelief.successor = successor
        model.sample_transition = sample_transition
        time.sleep = lambda d: _sleep(min(d, mon.pause))
        self.pause = self.case.rng.choice([1e-5, 5e-5, 2e-4, 1e-3])
        sys.setswitchinterval(self.case.rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
        if self.line_delays:
            threading.settrace(self.trace)
            sys.settrace(self.trace)
        return self

    def trace(self, frame, event, arg):
        """Delays at random lines of the library, so that threads also switch within its operations."""
        return self.trace_line if frame.f_code.co_filename.startswith(LIBRARY) else None

    def trace_line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            # exploration runs many more lines
            p = self.line_delays if threading.get_ident() == self.main else self.line_delays / 50
            if self.delay_rng.random() < p:
                _sleep(self.delay_rng.random() * 1e-3)
        return self.trace_line

    def __exit__(self, *exc):
        from task_models.lib import pomcp, belief
        if self.line_delays:
            sys.settrace(None)
            threading.settrace(None)
            self.case.event('lines with possible delays', self.lines)
        (pomcp._SearchTree.simulate_from_node, pomcp._SearchTree.get_node,
         belief.ParticleBelief.successor, interval, time.sleep) = self.saved
        sys.setswitchinterval(interval)

    def simulations(self):
        return sum(e[1] == 'sim+' for e in list(self.log))


def stop(case, pol, mon=None):
    """Stops the background work; a violation if that never returns."""
    done = []

    def target():
        try:
            pol.stop()
            done.append(None)
        except BaseException as e:
            done.append(e)

    before = mon.simulations() if mon else 0
    if mon:
        mon.pause = 1.      # no longer shortened: the lock is not fair, what waits for it gets it in the pauses
    t = threading.Thread(target=target, daemon=True)
    t.start()
    end = time.monotonic() + 30
    while t.is_alive():
        t.join(.02)
        if mon and mon.simulations() - before > 200:
            case.fail('the background work went on for 200 simulations after stop was called', 'stop')
        if time.monotonic() > end:
            case.fail('stop has not returned after 30 s', 'stop')
    case.check(done and done[0] is None, 'stop raised {}', done)
    case.event('stops')


def stopped(case, threads, mon):
    """After stop: no thread left, nothing simulated."""
    left = [t for t in threading.enumerate() if t not in threads and t.is_alive()]
    case.check(not left, 'threads left after stopping: {}', left)
    n = len(mon.log)
    _sleep(.015)
    case.check(len(mon.log) == n, 'simulations go on after stopping')


def make(case, model, **kw):
    from task_models.lib.pomcp import AsyncPOMCPPolicyRunner
    r = case.rng
    d = dict(iterations=r.choice([0, 1, 5, 20]), horizon=r.choice([1, 2, 4]), rollout_it=r.choice([1, 2]),
             exploration=r.choice([1., 20.]), relative_exploration=r.random() < .3,
             belief_values=r.random() < .3, belief='array', logger=pomcpref.quiet)
    if r.random() < .25:
        d.update(belief='particle', belief_values=False, belief_params={'n_particles': 5})
    d.update(kw)
    if d['belief'] == 'array':
        d.pop('belief_params', None)
    case.note(planner={k: v for k, v in d.items() if k != 'logger'})
    return AsyncPOMCPPolicyRunner(model, **d), d


def session(case):
    from task_models.lib.belief import MaxSamplesReached
    from task_models.lib.pomdp import Impossible
    r = case.rng
    parts, model = pomcpref.small_model(case, max_o=3)
    actions, observations = list(model.actions), list(model.observations)
    threads = threading.enumerate()
    ops = []
    with Monitor(case, model, r.choice([0., .02, .2]), r.choice([0., 0., .05, .3])) as mon:
        pol, kw = make(case, model)
        try:
            hist, last = [], None
            belief = [float(x) for x in parts['start']]
            for _ in range(r.randint(2, 12)):
                if r.random() < .5:
                    _sleep(r.random() * 4e-3)
                op = r.choice(['act', 'execute', 'reset', 'raise'] if last is None else
                              ['step', 'step', 'step', 'impossible', 'act', 'reset', 'execute', 'unknown'])
                if op == 'act':
                    k = r.choice([None, None, 0, 3])
                    mon.add('op+', 'act', kw['iterations'] if k is None else k)
                    a = pol.get_action() if k is None else pol.get_action(iterations=k)
                    case.check(a in actions, 'unknown action {!r}', a)
                    last = actions.index(a)
                    mon.add('op-', 'act', last)
                elif op == 'reset':
                    mon.add('op+', 'reset', [])
                    pol.reset()
                    mon.add('op-', 'reset', [])
                    hist, last, belief = [], None, [float(x) for x in parts['start']]
                elif op == 'execute':
                    token = object()

                    def work(x, y=None):
                        mon.add('x+')
                        _sleep(r.choice([0, 0, 1e-3]))
                        mon.add('x-')
                        return (x, y)

                    got = pol.execute(work, token, y=len(ops))
                    case.check(got == (token, len(ops)), 'execute returned {!r}', got)
                    case.event('exclusive work')
                elif op == 'raise':
                    def fail():
                        raise KeyError('x')
                    case.raises(KeyError, lambda: pol.execute(fail), 'exclusive work that raises')
                elif op == 'unknown':
                    case.raises(ValueError, lambda: pol.step('no such observation'), 'unknown observation')
                else:
                    post = [gen.bayes(parts['T'], parts['O'], last, o, belief) for o in range(len(observations))]
                    if op == 'impossible':
                        o = [o for o in range(len(post)) if post[o][1] == 0.]
                        if not o:
                            continue
                        case.raises((Impossible, MaxSamplesReached), lambda: pol.step(observations[o[0]]),
                                    'impossible observation')
                    else:
                        o = max(range(len(post)), key=lambda i: post[i][1] * (.1 + r.random()))
                        if post[o][1] < 1e-6:
                            continue
                        new = hist + [last, o]
                        mon.add('op+', 'step', new)
                        try:
                            pol.step(observations[o])
                        except MaxSamplesReached:
                            mon.add('op-', 'step', hist)
                        else:
                            mon.add('op-', 'step', new)
                            hist, belief, last = new, post[o][0], None
                ops.append(op)
                case.equal([int(h) for h in pol.history], hist, 'history after {}'.format(ops))
                if kw['belief'] == 'array':
                    case.close(pol.belief.array, belief, 'belief after {}'.format(ops))
                elif not hist:
                    case.equal(sum(pol.belief.array > 0) <= 5, True, 'belief')
        finally:
            stop(case, pol, mon)
        stopped(case, threads, mon)
        if r.random() < .3:
            stop(case, pol, mon)        # once more
    replay(case, mon, pol, model, kw)
    case.note(ops=ops, events=len(mon.log))
    case.key(parts['T'].tobytes(), tuple(ops), tuple(e[1] for e in mon.log if e[1] != 't'))


def replay(case, mon, pol, model, kw):
    tree = pol.tree
    shadow = pomcpref.Shadow(case, tree, model.n_actions, model.discount, lambda: pomcpref.NTransitions(kw['horizon']),
                             kw['rollout_it'], kw['belief_values'])
    # where every node is
    paths, stack = {}, [(tree.root, ())]
    while stack:
        n, p = stack.pop()
        if id(n) in paths:
            continue
        paths[id(n)] = p
        for a, act in enumerate(n.children):
            if act is not None:
                stack.extend((c, p + (a, int(o))) for o, c in act.children.items())
    log = mon.log
    sim = None                  # thread simulating
    trans = []                  # its events
    current, allowed, op = (), {()}, None
    ok_choice = None
    n_background = 0
    chosen, may_force = None, {None}    # action last chosen at the current node; actions imposed on explorations
    for i, e in enumerate(log):
        tid, kind = e[0], e[1]
        if kind == 'sim+':
            case.check(sim is None, 'two simulations overlap')
            sim, trans, node, action = tid, [], e[2], e[3]
            if tid != mon.main:
                n_background += 1
                if op:
                    case.event('calls during exploration')
                case.check(action is None or int(action) in may_force, 'an exploration is limited to action {} while '
                           'the action chosen at the current node is {}', action, chosen)
            case.check(id(node) in paths, 'a simulation starts from a node that is not in the tree')
            if tid != mon.main and not kw['belief_values'] and action is not None:
                case.check(paths[id(node)] == current, 'an exploration of the new node is limited to action {}, chosen '
                           'at the previous node', action)
            if not kw['belief_values']:
                case.check(paths[id(node)] in allowed, 'a simulation starts from the node of history {} while the '
                           'history is {}', paths[id(node)], sorted(allowed))
            elif len(allowed) == 1:
                case.check(node is find(tree, current), 'a simulation starts from another node than that of the '
                           'history {}', current)
            if op and op[2] == 'act' and tid == mon.main:
                op_sims += 1
                case.check(op_sims <= op[3], 'more than {} simulations in one call', op[3])
        elif kind in ('t', 'b'):
            if sim == tid:
                trans.append(e[1:])
            elif kind == 't':
                case.fail('a transition was simulated outside of any simulation', 'race')
        elif kind == 'sim-':
            case.check(sim == tid, 'two simulations overlap')
            sim = None
            if trans:
                pos = shadow.simulate(trans, 0, node, paths[id(node)], action)
                case.check(pos == len(trans), 'a simulation goes on after its end')
            case.event('transitions replayed', len(trans))
            if op and op[2] == 'act':
                if tid == mon.main:
                    ok_choice = False           # the choice comes after the planning of the call
                ok_choice = ok_choice or is_greedy(shadow, tree, current, op_result)
        elif kind in ('get+', 'get', 'get-', 'x+', 'x-'):
            case.check(sim is None or sim == tid, '{} while a simulation is in progress',
                       'exclusive work runs' if kind[0] == 'x' else 'the tree is extended', mechanism='race')
            if kind == 'get':
                shadow.stepped(e[2])
        elif kind == 'op+':
            op = e
            if e[2] == 'act':
                op_sims = 0
                op_result = next(x[3] for x in log[i:] if x[1] == 'op-')
                ok_choice = is_greedy(shadow, tree, current, op_result)
                may_force = {None, chosen, op_result}
            else:
                allowed = {current, tuple(e[3])}
        elif kind == 'op-':
            if e[2] == 'act':
                case.check(ok_choice, 'action {} was returned although its value was never the best', e[3])
                case.event('greedy actions')
                chosen = e[3]
                may_force = {None, chosen}
            elif tuple(e[3]) == current and e[2] == 'step':
                pass        # failed for lack of particles: nothing changes
            else:
                chosen, may_force = None, {None}
                current = tuple(e[3])
            allowed = {current}
            op = None
    case.event('background simulations', n_background)
    case.event('nodes compared', shadow.compare())
    case.equal(pol.tree.root is tree.root, True, 'root')


def find(tree, path):
    n = tree.root
    for i in range(0, len(path), 2):
        n = n.children[path[i]].children[path[i + 1]]
    return n


def is_greedy(shadow, tree, path, a):
    node = find(tree, path)
    key = shadow.key(node, path)
    if any(shadow.visited(key, i) == 0 for i in range(shadow.n_actions)):
        return True
    vals = [shadow.stats[shadow.akey(key, i)].value for i in range(shadow.n_actions)]
    return vals[a] >= max(vals) - 1e-9 * (1 + max(abs(v) for v in vals))


def wait_for(cond, seconds=30.):
    end = time.monotonic() + seconds
    while not cond():
        if time.monotonic() > end:
            return False
        _sleep(1e-3)
    return True


def forced(case):
    """Schedules forced with gates."""
    r = case.rng
    parts, model = pomcpref.small_model(case)
    threads = threading.enumerate()
    kind = r.choice(['work waits for exploration', 'exploration waits for work', 'acting waits', 'stepping waits'])
    with Monitor(case, model) as mon:
        held, release = threading.Event(), threading.Event()
        armed = [True]

        def gate():
            if armed[0] and threading.get_ident() != mon.main:
                held.set()
                release.wait(60)

        if kind != 'exploration waits for work':
            if kind == 'work waits for exploration':
                mon.gate = gate
                pol, kw = make(case, model, belief='array')
            else:
                pol, kw = make(case, model, belief='array', iterations=model.n_actions)
                a = list(model.actions).index(pol.get_action())
                mon.gate = gate
            try:
                if not wait_for(held.is_set):
                    case.fail('no exploration in the background')
                ran = []
                if kind == 'work waits for exploration':
                    call = lambda: pol.execute(lambda: ran.append(mon.simulating()) or 17)
                elif kind == 'acting waits':
                    call = lambda: pol.get_action(iterations=1)
                else:
                    post = [gen.bayes(parts['T'], parts['O'], a, o, parts['start'])[1]
                            for o in range(model.n_observations)]
                    o = int(np.argmax(post))
                    call = lambda: pol.step(model.observations[o])
                mon.simulating = lambda: True
                box = []
                n0 = len(mon.log)
                t = threading.Thread(target=lambda: box.append(call()), daemon=True)
                t.start()
                _sleep(.02)
                mine = [e for e in mon.log[n0:] if e[0] == t.ident]
                case.check(not ran, 'exclusive work runs while a simulation is in progress', mechanism='race')
                case.check(not any(e[1] in ('sim+', 'get') for e in mine),
                           'the tree is used while a simulation is in progress', mechanism='race')
                armed[0] = False
                release.set()
                t.join(60)
                case.check(not t.is_alive(), 'the call never returned')
                case.check(len(box) == 1, 'the call raised')
                if kind == 'work waits for exploration':
                    case.equal(box[0], 17, 'result of exclusive work')
                    case.event('exclusive work')
                case.event('calls during exploration')
            finally:
                armed[0] = False
                release.set()
                stop(case, pol, mon)
        else:
            pol, kw = make(case, model, belief='array')
            try:
                def work():
                    n = len(mon.log)
                    _sleep(.02)
                    return n, len(mon.log)
                n, m = pol.execute(work)
                case.equal(m, n, 'events logged while exclusive work runs', mechanism='race')
                case.event('exclusive work')
                case.check(wait_for(lambda: len(mon.log) > m), 'exploration does not go on after exclusive work')
            finally:
                stop(case, pol, mon)
        stopped(case, threads, mon)
    case.key(parts['T'].tobytes(), kind)
    case.note(kind=kind)


def stopping(case):
    r = case.rng
    parts, model = pomcpref.small_model(case)
    threads = threading.enumerate()
    how = r.choice(['at once', 'after a while', 'twice', 'two threads', 'after acting', 'deleted', 'during work',
                    'collected'])
    with Monitor(case, model, r.choice([0., .1])) as mon:
        pol, kw = make(case, model)
        if how not in ('at once', 'two threads'):
            _sleep(r.random() * .01)
        if how == 'after acting':
            for _ in range(r.randint(1, 3)):
                pol.get_action()
            if r.random() < .5:
                pol.reset()
        if how == 'deleted':
            del pol
            gc.collect()
            case.check(wait_for(lambda: not [t for t in threading.enumerate() if t not in threads], 60),
                       'the background work of a deleted planner goes on', mechanism='stop')
            case.event('stops')
        elif how == 'collected':
            # the planner is part of a reference cycle, and collected by whichever thread: also while simulating
            where = r.choice(['background', 'background', 'here'])
            cycle = [pol]
            cycle.append(cycle)
            pol.cycle = cycle
            gone = weakref.ref(pol)
            if where == 'background':
                def collect():
                    if threading.get_ident() != mon.main and gone() is not None and armed:
                        gc.collect()
                        case.event('collected while simulating', gone() is None)
                armed = []
                mon.gate = collect
                del pol, cycle
                armed.append(True)
                _sleep(.02)
            else:
                del pol, cycle
            wait_for(lambda: gone() is None or where == 'here', 2)
            mon.gate = None
            t = threading.Thread(target=gc.collect, daemon=True)
            t.start()
            t.join(30)
            case.check(not t.is_alive() and wait_for(lambda: not [t for t in threading.enumerate() if t not in threads],
                                                     30),
                       'the background work of a collected planner goes on or hangs', mechanism='stop')
            case.event('stops')
        elif how == 'two threads':
            other = threading.Thread(target=pol.stop, daemon=True)
            other.start()
            stop(case, pol, mon)
            other.join(60)
            case.check(not other.is_alive(), 'stop has not returned')
        elif how == 'during work':
            box = []
            w = threading.Thread(target=lambda: box.append(pol.execute(lambda: _sleep(.003) or 5)), daemon=True)
            w.start()
            stop(case, pol, mon)
            w.join(60)
            case.equal(box, [5], 'result of exclusive work')
        else:
            stop(case, pol, mon)
            if how == 'twice':
                stop(case, pol, mon)
        stopped(case, threads, mon)
    case.event('background simulations', mon.simulations())
    case.key(parts['T'].tobytes(), how, mon.simulations())
    case.note(how=how)


def failing(case):
    """The simulator fails in the background: calls and stopping still work."""
    r = case.rng
    parts, model = pomcpref.small_model(case)
    threads = threading.enumerate()
    at = r.randint(0, 12)
    count = [0]
    with Monitor(case, model) as mon:
        def fault():
            if threading.get_ident() != mon.main:
                count[0] += 1
                if count[0] > at:
                    raise RuntimeError('injected failure of the simulator')

        mon.fault = fault
        pol, kw = make(case, model, belief='array')
        wait_for(lambda: count[0] > at, .05)
        box = []
        t = threading.Thread(target=lambda: box.append(pol.execute(lambda: 3)), daemon=True)
        t.start()
        t.join(60)
        case.equal(box, [3], 'result of exclusive work after a failure')
        case.event('exclusive work')
        stop(case, pol, mon)
        stopped(case, threads, mon)
    case.event('background failures', count[0] > at)
    case.key(parts['T'].tobytes(), at)
    case.note(failure_at=at)
