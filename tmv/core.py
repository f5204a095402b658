"""Common machinery of the checks: case generation, isolation, verdicts, evidence, replay.

Verdicts are three-valued:
  exit 0  the property held on everything observed;
  exit 1  `VIOLATION property=<id> replay=<path>`;
  exit 2  inconclusive (a monitor was never reached, or the machinery itself failed).

A check is a module of tmv.checks with: PROPERTY, RULE, ASSUMPTIONS (optional), and run(ctx). run calls
ctx.cases(scenario, n, fn): fn(case) is executed for n independent cases, each with its own random streams
derived from (VERIF_SEED, property, scenario, index) only, so that any case can be replayed on its own.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
OUT = os.path.join(EVIDENCE, 'replay')      # ignored by git, like all of evidence/
KNOWN = os.path.join(VERIF, 'known_findings.txt')
REPO = os.environ.get('TMV_REPO', '/repo')


class Violation(AssertionError):
    """Raised by an oracle: the property does not hold on what was observed."""

    def __init__(self, message, mechanism=None):
        super().__init__(message)
        self.mechanism = mechanism


class Inconclusive(Exception):
    """The observation does not decide anything (e.g. watchdog of the harness)."""


class NotTerminating(BaseException):
    """The code under test used far more CPU time than any correct version would."""


def seed_of(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Case:
    """One generated case; records what the monitors observed during it."""

    def __init__(self, ctx, scenario, index):
        self.ctx = ctx
        self.scenario = scenario
        self.index = index
        self.seed = seed_of(ctx.seed, ctx.property, scenario, index)
        self.rng = random.Random(self.seed)
        self.np = np.random.RandomState(self.seed % (2 ** 32))
        self.events = {}
        self.keys = set()
        self.desc = {}
        self.nested = 0

    # -- what was observed -------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def key(self, *parts):
        """Declares that this case is non-trivial; cases are distinct by this key."""
        self.keys.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def note(self, **kw):
        """Describes the case, for the replay file and the evidence samples."""
        self.desc.update(kw)

    # -- oracles -----------------------------------------------------------
    def fail(self, message, mechanism=None):
        raise Violation(message, mechanism)

    def check(self, cond, message, *args, mechanism=None):
        if not cond:
            raise Violation(message.format(*args) if args else message, mechanism)

    def equal(self, got, expected, what, mechanism=None):
        if not (got == expected):
            raise Violation('{}: got {}, expected {}'.format(
                what, short(got), short(expected)), mechanism)

    def close(self, got, expected, what, tol=1e-9, mechanism=None):
        got = np.asarray(got, dtype=float)
        expected = np.asarray(expected, dtype=float)
        if got.shape != expected.shape:
            raise Violation('{}: shape {} instead of {}'.format(what, got.shape, expected.shape), mechanism)
        err = np.abs(got - expected) > tol * (1 + np.abs(expected))
        if got.size and (err.any() or not np.isfinite(got).all() and np.isfinite(expected).all()):
            i = np.unravel_index(int(err.argmax()), got.shape) if got.shape else ()
            raise Violation('{}: at {} got {!r}, expected {!r}'.format(
                what, tuple(int(x) for x in i), float(got[i]), float(expected[i])), mechanism)

    def finding(self, mechanism, message):
        """A defect of a listed mechanism was observed (a violation when it is not listed)."""
        if mechanism not in self.ctx.known:
            raise Violation(message, mechanism)
        self.event('known-finding:' + mechanism)

    def raises(self, exc, fun, what, mechanism=None):
        """The call must raise one of exc, and nothing else."""
        try:
            r = fun()
        except exc as e:
            return e
        except Exception as e:
            raise Violation('{}: raised {} instead of {}'.format(
                what, describe_exc(e), exc_names(exc)), mechanism)
        raise Violation('{}: returned {} instead of raising {}'.format(what, short(r), exc_names(exc)), mechanism)

    def reseed_global(self, *parts):
        np.random.seed(seed_of(self.seed, *parts) % (2 ** 32))
        random.seed(seed_of(self.seed, 'py', *parts))


def exc_names(exc):
    return exc.__name__ if isinstance(exc, type) else '/'.join(e.__name__ for e in exc)


def describe_exc(e):
    return '{}({})'.format(type(e).__name__, short(str(e), 200))


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def jsonable(x, depth=0):
    if depth > 8:
        return short(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)[:60]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth) if x.size <= 200 else 'array{}'.format(x.shape)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, float) and not np.isfinite(x):
        return repr(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x if not isinstance(x, str) else short(x, 3000)
    return short(x)


class Result:
    """What a set of cases produced (picklable, mergeable)."""

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.events = {}
        self.samples = {}
        self.violations = []
        self.inconclusive = []
        self.skipped = 0

    def merge(self, o):
        self.evaluations += o.evaluations
        self.keys |= o.keys
        for k, v in o.events.items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in o.samples.items():
            have = self.samples.setdefault(k, [])
            if len(have) < 2:
                have.extend(v[:2 - len(have)])
        self.violations.extend(o.violations)
        self.inconclusive.extend(o.inconclusive)
        self.skipped += o.skipped


class Ctx:

    CPU_LIMIT = 60.        # CPU seconds a single case may use (typical: milliseconds)

    def __init__(self, property, tier, seed):
        self.property = property
        self.tier = tier
        self.seed = seed
        self.quick = tier != 'thorough'
        self.result = Result()
        self.required = {}
        self.t0 = time.time()
        # Wall budget after which no new case is started (never a verdict by itself)
        self.budget = float(os.environ.get('TMV_BUDGET', 240 if self.quick else 780))
        self.workers = int(os.environ.get('TMV_WORKERS', min(8, os.cpu_count() or 1)))
        self.only = None       # (scenario, index) in replay mode
        self.scenarios = {}
        self.extra = {}
        self.known = dict(known_findings(property))
        self.scratch = tempfile.mkdtemp(prefix='tmv-{}-'.format(property))

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def require(self, kind, minimum=1):
        """The run is inconclusive unless the monitors saw this many such events."""
        self.required[kind] = max(minimum, self.required.get(kind, 0))

    # -- running cases -----------------------------------------------------
    def cases(self, scenario, n, fn, parallel=True, cpu=None, wall=None):
        """cpu: CPU seconds after which a case does not terminate; wall: the same for blocked cases (seconds
        without which a correct version needs milliseconds; by default such a case is inconclusive)."""
        cpu = (cpu or self.CPU_LIMIT, wall)
        if self.only is not None:
            if self.only[0] == scenario:
                self._run_one(self.result, scenario, self.only[1], fn, cpu)
            return
        if self.result.violations and self.quick:
            return              # a verdict is reached already
        t = time.time()
        before = self.result.evaluations
        w = min(self.workers, n) if parallel else 1
        if w <= 1 or n < 8:
            for i in range(n):
                if self._stop(self.result, t):
                    self.result.skipped += n - i
                    break
                self._run_one(self.result, scenario, i, fn, cpu)
        else:
            self._fork(scenario, n, fn, w, t, cpu)
        self.scenarios[scenario] = {
            'cases': self.result.evaluations - before, 'wall_s': round(time.time() - t, 2)}

    def _stop(self, result, t):
        return (len(result.violations) >= 3 or time.time() - self.t0 > self.budget or
                any(v['mechanism'] == 'nonterminating' for v in result.violations))

    def _fork(self, scenario, n, fn, w, t, cpu):
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for k in range(w):
            path = os.path.join(self.scratch, 'w-{}-{}'.format(os.getpid(), k))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    r = Result()
                    for i in range(k, n, w):
                        if self._stop(r, t):
                            r.skipped += len(range(i, n, w))
                            break
                        with open(path + '.at', 'w') as f:
                            f.write(str(i))
                        self._run_one(r, scenario, i, fn, cpu)
                    with open(path, 'wb') as f:
                        pickle.dump(r, f)
                except BaseException:
                    traceback.print_exc()
                    code = 70
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            kids.append((pid, path))
        for pid, path in kids:
            _, status = os.waitpid(pid, 0)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    self.result.merge(pickle.load(f))
            else:
                at = open(path + '.at').read() if os.path.exists(path + '.at') else '?'
                self.result.inconclusive.append(
                    'worker died (status {}) in scenario {} case {}'.format(status, scenario, at))

    def _run_one(self, result, scenario, index, fn, cpu):
        case = Case(self, scenario, index)
        case.reseed_global('case')
        result.evaluations += 1

        cpu, wall = cpu

        def on_cpu(signum, frame):
            raise NotTerminating('no result after {} s of CPU time: does not terminate'.format(cpu))

        def on_wall(signum, frame):
            if wall is None:
                raise Inconclusive('no result after 200 s')
            raise NotTerminating('no result after {} s: blocked'.format(wall))

        old = signal.signal(signal.SIGPROF, on_cpu)
        old_alarm = signal.signal(signal.SIGALRM, on_wall)
        signal.setitimer(signal.ITIMER_PROF, cpu, 1.)
        signal.setitimer(signal.ITIMER_REAL, wall or 200., 5.)
        problem = None
        try:
            fn(case)
        except Violation as e:
            problem = (str(e), e.mechanism, '')
        except Inconclusive as e:
            result.inconclusive.append('{} case {}: {}'.format(scenario, index, e))
        except NotTerminating as e:
            problem = (str(e), 'nonterminating', traceback.format_exc()[-3000:])
        except Exception as e:
            problem = ('unexpected exception: ' + describe_exc(e), None, traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0.)
            signal.setitimer(signal.ITIMER_REAL, 0.)
            signal.signal(signal.SIGPROF, old)
            signal.signal(signal.SIGALRM, old_alarm)
            end_children()
        for k, v in case.events.items():
            result.events[k] = result.events.get(k, 0) + v
        result.keys |= case.keys
        if case.keys and case.desc and len(result.samples.setdefault(scenario, [])) < 2:
            result.samples[scenario].append(jsonable(case.desc))
        if problem:
            result.violations.append({
                'property': self.property, 'scenario': scenario, 'index': index, 'seed': self.seed,
                'tier': self.tier, 'message': problem[0], 'mechanism': problem[1],
                'traceback': problem[2], 'case': jsonable(case.desc)})


def end_children():
    """Ends the processes that a case left behind."""
    mp = sys.modules.get('multiprocessing')
    for p in mp.active_children() if mp else []:
        p.kill()
        p.join(5)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line[len('finding:'):].split(None, 2)
                         if '=' in x)
                what = line.split(None, 3)[-1]
                if f.get('property') == prop:
                    out.append((f.get('mechanism'), what))
    return out


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    it = iter(argv[1:])
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--replay':
            replay = json.load(open(next(it)))
        elif a == '--case':
            replay = {'scenario': next(it), 'index': int(next(it)), 'seed': seed, 'tier': tier}
    if replay:
        tier, seed = replay['tier'], replay['seed']
    # Nothing that runs away may take the sandbox with it
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.dont_write_bytecode = True
    ctx = Ctx(prop, tier, seed)
    try:
        return _main(ctx, replay)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def _main(ctx, replay):
    prop, tier, seed = ctx.property, ctx.tier, ctx.seed
    if replay:
        ctx.only = (replay['scenario'], replay['index'])
    from . import env
    fatal = None
    mod = None
    try:
        env.setup(ctx)
        mod = importlib.import_module('tmv.checks.' + prop.lower())
        assert mod.PROPERTY == prop
        mod.run(ctx)
    except env.CodeImportError as e:
        # The code under test cannot even be imported: no property of it can be observed
        ctx.result.violations.append({
            'property': prop, 'scenario': 'import', 'index': 0, 'seed': seed, 'tier': tier,
            'message': 'the code cannot be loaded: ' + str(e), 'mechanism': 'import',
            'traceback': traceback.format_exc()[-3000:], 'case': {}})
    except Exception:
        fatal = traceback.format_exc()
    r = ctx.result
    if replay:
        for v in r.violations:
            print(json.dumps(v, indent=1))
        if fatal:
            print(fatal)
        for m in r.inconclusive:
            print('INCONCLUSIVE', m)
        print('replay: {} violation(s) in {} case(s)'.format(len(r.violations), r.evaluations))
        return 1 if r.violations else (2 if fatal or r.inconclusive else 0)
    known = ctx.known
    new = [v for v in r.violations if v['mechanism'] not in known]
    seen = sorted(k for k in known if 'known-finding:' + k in r.events or
                  any(v['mechanism'] == k for v in r.violations))
    missing = {k: (r.events.get(k, 0), m) for k, m in ctx.required.items() if r.events.get(k, 0) < m}
    samples = [dict(scenario=s, case=c) for s, l in r.samples.items() for c in l][:14]
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': dict({
            'evaluations': r.evaluations,
            'distinct_nontrivial': len(r.keys),
            'rule': getattr(mod, 'RULE', ''),
            'samples': samples or [{'note': 'no case was completed'}],
            'observed_events': dict(sorted(r.events.items())),
            'required_events': dict(sorted(ctx.required.items())),
            'scenarios': ctx.scenarios,
            'not_run_budget': r.skipped,
            'inconclusive': r.inconclusive[:10],
        }, **ctx.extra),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for m in seen:
        print('KNOWN-FINDING: property={} {}'.format(prop, known[m]))
    print('{} {}: {} cases, {} distinct, {} violation(s), {:.1f}s; events {}'.format(
        prop, tier, r.evaluations, len(r.keys), len(new), time.time() - ctx.t0,
        json.dumps(dict(sorted(r.events.items())))))
    if new:
        for i, v in enumerate(new[:3]):
            path = os.path.join(OUT, '{}-{}-{}.json'.format(prop, v['scenario'], v['index']))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  ' + short(v['message'], 600))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if fatal:
        print('ERROR in the machinery:\n' + fatal)
        return 2
    if r.inconclusive:
        print('INCONCLUSIVE: ' + '; '.join(r.inconclusive[:5]))
        return 2
    if missing:
        print('INCONCLUSIVE: monitors saw too little: {}'.format(missing))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
