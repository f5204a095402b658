"""C25: repeated parallel evaluation returns exactly one result per run or fails."""
import multiprocessing
import os
import signal
import sys
import tempfile
import threading
import time

import numpy as np

PROPERTY = 'C25'
RULE = ('repeat() is called with functions that log their runs in files: repetition counts from 0 to several times the '
        'number of processes, durations and completion orders at random, results up to tens of megabytes; faults at '
        'chosen runs: exceptions, exits with and without error code, signals, results that cannot be sent, death '
        'while a large result is being sent. Results, logged runs, random draws, remaining processes and the time '
        'taken are monitored. Non-trivial: distinct configurations.')
ASSUMPTIONS = ['numpy random streams only (documented); two runs drawing the same seed by chance has negligible '
               'probability (2^-26 at most per call)']


class Expected(Exception):
    pass


class Odd(object):
    """A result that cannot be pickled."""

    def __reduce__(self):
        raise TypeError('cannot be sent')


def quiet_stderr():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    sys.stderr = open(os.devnull, 'w')


class Runs(object):
    """Log of the runs of one call, kept in files."""

    def __init__(self, case):
        self.dir = tempfile.mkdtemp(dir=case.ctx.scratch)

    def claim(self):
        """Rank of this run among the runs of the call."""
        i = 0
        while True:
            try:
                fd = os.open(os.path.join(self.dir, 'run-{}'.format(i)), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
            except FileExistsError:
                i += 1
                continue
            os.write(fd, str(os.getpid()).encode())
            os.close(fd)
            return i

    def pids(self):
        r = {}
        for f in [f for f in os.listdir(self.dir) if f.startswith('run-')]:
            with open(os.path.join(self.dir, f)) as fp:
                text = fp.read()
            r[int(f.split('-')[1])] = int(text) if text else None
        return r


def processes(case):
    """Varies the number of processes used, where the pool allows it."""
    from task_models.utils import multiprocess
    n = case.rng.choice([1, 2, 3, 8, 8, 13])
    if hasattr(multiprocess, 'cpu_count'):
        multiprocess.cpu_count = lambda: n
    return n


def no_worker_left(case, runs, what):
    deadline = time.time() + 10
    while True:
        left = [p.pid for p in multiprocessing.active_children()]
        for pid in runs.pids().values():
            if pid is None or pid == os.getpid():
                continue
            try:
                os.kill(pid, 0)
                left.append(pid)
            except ProcessLookupError:
                pass
        if not left:
            break
        if time.time() > deadline:
            for p in set(left):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            case.fail('{}: workers {} are still there'.format(what, sorted(set(left))))
        time.sleep(.02)
    case.event('no-worker-left')


def payload(kind, index, draws):
    if kind == 'none':
        return None
    if kind == 'tuple':
        return (index, draws)
    if kind == 'dict':
        return {'index': index, 'draws': draws, 'x': np.arange(index)}
    if kind == 'exception':
        return Expected(index)
    if kind == 'false':
        return [False, 0, '', ()][index % 4]
    if kind == 'mixed' and index % 3:
        return (index, draws)
    size = {'big': 300000, 'mixed': 300000, 'huge': 20000000}[kind]
    return (index, draws, np.full(size, index % 251, dtype=np.uint8).tobytes())


def check_payload(case, kind, results, log):
    """log: {index: draws} as recorded by the runs."""
    n = len(log)
    case.equal(len(results), n, 'number of results')
    if kind == 'none':
        case.check(all(r is None for r in results), 'results {} instead of None', results)
    elif kind == 'false':
        case.equal(sorted(repr(r) for r in results), sorted(repr(payload(kind, i, ())) for i in log), 'results')
    elif kind == 'exception':
        case.equal(sorted(r.args[0] for r in results), sorted(log), 'results')
    elif kind == 'dict':
        case.equal(sorted((r['index'], r['draws']) for r in results), sorted(log.items()), 'results')
        for r in results:
            case.check(list(r['x']) == list(range(r['index'])), 'content of the result of run {}', r['index'])
    else:
        case.equal(sorted((r[0], r[1]) for r in results), sorted(log.items()), 'results')
        for r in results:
            exp = payload(kind, r[0], r[1])
            case.check(len(r) == len(exp) and (len(r) < 3 or r[2] == exp[2]), 'content of the result of run {}', r[0])


def make(runs, case, kind, delay, faults=None):
    """The function to repeat; faults: {rank: callable} executed by that run."""
    seed = case.seed

    def func():
        index = runs.claim()
        draws = tuple(int(x) for x in np.frombuffer(np.random.bytes(48), dtype=np.uint32))
        with open(os.path.join(runs.dir, 'draws-{}'.format(index)), 'w') as f:
            f.write(' '.join(map(str, draws)))
        d = delay(index, np.random.RandomState((seed + index) % 2 ** 32))
        if d:
            time.sleep(d)
        if faults and index in faults:
            faults[index]()
        return payload(kind, index, draws)
    return func


def read_log(runs):
    log = {}
    for f in os.listdir(runs.dir):
        if f.startswith('draws-'):
            with open(os.path.join(runs.dir, f)) as fp:
                log[int(f.split('-')[1])] = tuple(int(x) for x in fp.read().split())
            os.unlink(os.path.join(runs.dir, f))
    return log


def check_streams(case, log):
    """No two runs share a part of their streams, whatever the offset."""
    seen = {}
    for i, words in log.items():
        for j in range(len(words) - 1):
            other = seen.setdefault(words[j:j + 2], i)
            case.check(other == i, 'runs {} and {} drew the same random numbers: {} and {}', other, i, log[other],
                       words)


DELAYS = {'none': lambda i, r: 0,
          'random': lambda i, r: r.rand() * .05,
          'decreasing': lambda i, r: max(0, .1 - .012 * i),
          'one-slow': lambda i, r: .4 if i == 0 else 0,
          'last-slow': lambda i, r: .02 * i,
          'bimodal': lambda i, r: .15 if r.rand() < .3 else 0}


def success(case):
    from task_models.utils.multiprocess import repeat
    nproc = processes(case)
    n = case.rng.choice([0, 1, 2, nproc - 1, nproc, nproc + 1, 2 * nproc + 1, 20, 33])
    kind = case.rng.choice(['tuple', 'tuple', 'dict', 'none', 'false', 'exception', 'big', 'mixed', 'huge'])
    if kind == 'huge':
        n = min(n, 6)
    delay = case.rng.choice(sorted(DELAYS))
    case.note(processes=nproc, n=n, kind=kind, delay=delay)
    multisets = []
    for _ in range(2 if case.rng.random() < .4 else 1):
        runs = Runs(case)
        case.reseed_global('repeat')
        t0 = time.time()
        results = repeat(make(runs, case, kind, DELAYS[delay]), n)
        case.check(isinstance(results, list), 'the results are a {}', type(results).__name__)
        no_worker_left(case, runs, 'after a successful call')
        log = read_log(runs)
        case.equal(len(log), n, 'number of runs of the function')
        check_payload(case, kind, results, log)
        check_streams(case, log)
        pids = runs.pids()
        case.check(all(p != os.getpid() for p in pids.values()), 'a run was done by the caller itself')
        case.event('successful-call')
        case.event('runs', n)
        multisets.append(sorted(log.values()))
        if n > 1 and time.time() - t0 < 5 and list(results) and kind == 'tuple' and \
                [r[0] for r in results] != list(range(n)):
            case.event('out-of-order-completion')
    if len(multisets) == 2:
        case.equal(multisets[0], multisets[1], 'draws of two calls from the same seed')
        case.event('seeded-twice')
    case.key(nproc, n, kind, delay)


def different_callers(case):
    """Calls from different or successive states of the caller's stream use different streams."""
    from task_models.utils.multiprocess import repeat
    processes(case)
    n = case.rng.randint(1, 6)
    seen = []
    np.random.seed(case.rng.randrange(2 ** 31))
    for _ in range(2):
        runs = Runs(case)
        repeat(make(runs, case, 'tuple', DELAYS['none']), n)
        seen.append(sorted(read_log(runs).values()))
    check_streams(case, dict(enumerate(seen[0] + seen[1])))
    case.event('successive-calls')
    case.key(n, seen[0])


def fault(name, rng):
    def raising():
        quiet_stderr()
        raise Expected('planned')

    def base_exception():
        quiet_stderr()
        raise KeyboardInterrupt()

    def exiting():
        sys.exit(3)

    def exiting_well():
        sys.exit(0)

    def hard(code):
        def f():
            os._exit(code)
        return f

    def killed(sig):
        def f():
            signal.signal(sig, signal.SIG_DFL) if sig != signal.SIGKILL else None
            os.kill(os.getpid(), sig)
            time.sleep(30)
        return f
    return {'raise': raising, 'interrupt': base_exception, 'exit': exiting, 'exit-0': exiting_well, '_exit-1': hard(1),
            '_exit-0': hard(0), 'kill': killed(signal.SIGKILL), 'term': killed(signal.SIGTERM),
            'segv': killed(signal.SIGSEGV), 'hup': killed(signal.SIGHUP)}[name]


FAULTS = ['raise', 'interrupt', 'exit', 'exit-0', '_exit-1', '_exit-0', 'kill', 'term', 'segv', 'hup']


def uneven(case):
    """A large result is received while others are delivered by processes that end at once."""
    from task_models.utils.multiprocess import repeat
    processes(case)
    n = case.rng.choice([2, 3, 5, 9])
    sizes = {0: case.rng.choice([10 ** 7, 3 * 10 ** 7, 6 * 10 ** 7])}
    gaps = [case.rng.random() * .03 for _ in range(n)]
    runs = Runs(case)

    def func():
        i = runs.claim()
        if i:
            time.sleep(gaps[i])
        return i, b'x' * sizes.get(i, 1)
    case.note(n=n, size=sizes[0])
    results = repeat(func, n)
    no_worker_left(case, runs, 'after a successful call')
    case.equal(sorted((i, len(x)) for i, x in results), [(i, sizes.get(i, 1)) for i in range(n)], 'results')
    case.event('uneven')
    case.key(n, sizes, gaps)


def failures(case):
    from task_models.utils.multiprocess import repeat
    nproc = processes(case)
    n = case.rng.choice([1, 2, nproc, nproc + 1, 2 * nproc + 1, 12])
    name = case.rng.choice(FAULTS)
    where = sorted(case.rng.sample(range(n), case.rng.choice([1, 1, 1, min(2, n), n])))
    if case.rng.random() < .3:
        where = sorted(set(where) | {n - 1})       # the last one: nothing follows
    kind = case.rng.choice(['tuple', 'none', 'big', 'mixed'])
    delay = case.rng.choice(sorted(DELAYS))
    case.note(processes=nproc, n=n, fault=name, where=where, kind=kind, delay=delay)
    case.key(nproc, n, name, where, kind, delay)
    runs = Runs(case)
    one = fault(name, case.rng)
    try:
        results = repeat(make(runs, case, kind, DELAYS[delay], {i: one for i in where}), n)
    except Exception as e:
        case.event('failure-reported')
        case.event('fault:' + name)
        no_worker_left(case, runs, 'after a failed call')
        case.check(len(str(type(e).__name__)) > 0, 'no exception')
        return
    case.fail('{} at runs {} of {}: {} results are returned instead of raising'.format(
        name, where, n, len(results)))


def not_picklable(case):
    from task_models.utils.multiprocess import repeat
    nproc = processes(case)
    n = case.rng.choice([1, 3, nproc + 1])
    k = case.rng.randrange(n)
    runs = Runs(case)
    case.note(processes=nproc, n=n, where=k)
    case.key(nproc, n, k)

    def func():
        i = runs.claim()
        quiet_stderr()
        return Odd() if i == k else i
    try:
        r = repeat(func, n)
    except Exception:
        case.event('failure-reported')
        no_worker_left(case, runs, 'after a failed call')
        return
    case.fail('run {} has a result that cannot be sent but {} results are returned'.format(k, len(r)))


def killed_while_sending(case):
    """The process dies at some moment of the delivery of a large result."""
    from task_models.utils.multiprocess import repeat
    nproc = processes(case)
    n = case.rng.choice([1, 2, 3, 5])
    k = case.rng.randrange(n)
    size = case.rng.choice([3000000, 30000000])
    after = case.rng.choice([0, 1e-4, 5e-4, 1e-3, 3e-3, 1e-2])
    runs = Runs(case)
    case.note(processes=nproc, n=n, where=k, size=size, after=after)
    case.key(nproc, n, k, size, after)

    def func():
        i = runs.claim()
        result = (i, np.zeros(size, dtype=np.uint8).tobytes())
        if i == k:
            def kill():
                if after:
                    time.sleep(after)
                os.kill(os.getpid(), signal.SIGKILL)
            threading.Thread(target=kill, daemon=True).start()
            if not after:
                time.sleep(.05)
        return result
    try:
        r = repeat(func, n)
    except Exception:
        case.event('killed-while-sending:reported')
        no_worker_left(case, runs, 'after a failed call')
        return
    # It had been delivered before
    case.equal(sorted(x[0] for x in r), list(range(n)), 'runs of the results')
    case.check(all(len(x[1]) == size for x in r), 'truncated result')
    case.event('killed-while-sending:delivered')


def run(ctx):
    ctx.cases('success', ctx.n(50, 1200), success, wall=60)
    ctx.cases('different-callers', ctx.n(8, 60), different_callers, wall=60)
    ctx.cases('uneven', ctx.n(30, 400), uneven, wall=60)
    ctx.cases('failures', ctx.n(60, 1200), failures, wall=60)
    ctx.cases('not-picklable', ctx.n(8, 80), not_picklable, wall=60)
    ctx.cases('killed-while-sending', ctx.n(24, 400), killed_while_sending, wall=60)
    for e, m in (('successful-call', 50), ('runs', 300), ('seeded-twice', 8), ('failure-reported', 30),
                 ('no-worker-left', 100), ('successive-calls', 8), ('killed-while-sending:reported', 5)):
        ctx.require(e, m)
