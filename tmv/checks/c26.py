"""C26: evaluation reports describe the episode that was simulated."""
import io
import json
import math
import os
import re
import sys
import tempfile
import time

import numpy as np

from .. import core, gen
from . import c11

PROPERTY = 'C26'
RULE = ('episodes of random supportive tasks with random, scripted and planning policies, all discounts and limits; '
        'every call of the policy and every call of the simulator is recorded and the report is recomputed from this '
        'trace. Repeated evaluations, experiments (parameters, configuration files, debug settings), the shipped '
        'experiment scripts and their result files, and the logs of trajectories played by a planner itself are checked against an independent reference of the process. '
        'Non-trivial: distinct traces.')
ASSUMPTIONS = ['expjobs (job scheduler) is not installed: its Launcher base class is a stand-in']

KEYS = ('return', 'states', 'actions', 'observations', 'rewards', 'elapsed-time', 'simulator-calls')


class Trace(object):
    """Events of an episode, in order."""

    def __init__(self, model):
        self.model = model
        self.events = []
        self.inside = 0
        start, transition = model.sample_start, model.sample_transition
        self.calls = 0

        def sample_start(*args, **kw):
            s = start(*args, **kw)
            self.events.append(('start', self.inside > 0, int(s)))
            return s

        def sample_transition(a, s, *args, **kw):
            r = transition(a, s, *args, **kw)
            self.calls += 1
            if not self.inside:
                self.events.append(('transition', int(a), int(s), int(r[0]), int(r[1]), float(r[2])))
            return r
        model.sample_start, model.sample_transition = sample_start, sample_transition


class Watched(object):
    """Policy that forwards to another one and records what it is told."""

    def __init__(self, trace, policy):
        self.trace, self.policy = trace, policy

    def _call(self, name, *args, **kw):
        self.trace.inside += 1
        try:
            r = getattr(self.policy, name)(*args, **kw)
        finally:
            self.trace.inside -= 1
        self.trace.events.append((name,) + args + (r,))
        return r

    def reset(self):
        return self._call('reset')

    def get_action(self, *args, **kw):
        return self._call('get_action', *args, **kw)

    def step(self, o):
        return self._call('step', o)


class RandomPolicy(object):
    """Mostly progressing actions; uses the numpy stream only."""

    def __init__(self, model, p=.7):
        self.model = model
        self.p = p
        self.progress = [a for a in model.actions if a in ('wait', 'hold H', 'hold V')]

    def reset(self):
        pass

    def get_action(self, iterations=None):
        if np.random.rand() < self.p:
            return self.progress[np.random.randint(len(self.progress))]
        return self.model.actions[np.random.randint(self.model.n_actions)]

    def step(self, o):
        pass


class Depletable(object):
    """A particle planner that answers at random for the rest of the episode once no particle is left."""

    def __init__(self, model, policy):
        self.model, self.policy = model, policy
        self.lost = False

    def reset(self):
        self.lost = False
        self.policy.reset()

    def get_action(self, **kw):
        return RandomPolicy(self.model).get_action() if self.lost else self.policy.get_action(**kw)

    def step(self, o):
        from task_models.lib.belief import MaxSamplesReached
        if not self.lost:
            try:
                self.policy.step(o)
            except MaxSamplesReached:
                self.lost = True


def planner(case, model):
    from task_models.lib.pomcp import POMCPPolicyRunner
    from task_models.supportive import NHTMHorizon
    from task_models.evaluation import FinishedOrNTransitionsHorizon
    cls = case.rng.choice([NHTMHorizon, FinishedOrNTransitionsHorizon])
    return Depletable(model, POMCPPolicyRunner(
        model, iterations=case.rng.choice([1, 5, 20]), horizon=cls.generator(model, n=case.rng.randint(1, 5)),
        exploration=10., belief='particle', belief_params={'n_particles': 20}))


def random_model(case, max_leaves=3):
    model, proc = c11.random_process(case, max_leaves=max_leaves, n_prefs=1, max_objects=2)
    model.p_fail = proc.p['p_fail'] = min(proc.p['p_fail'], .3)
    proc.cache.clear()
    model.discount = case.rng.choice([1., 1., .95, .5, 0., .9])
    return model, proc


def is_final(model, proc, s):
    return c11.describe(model, proc, s)[0] == 'final'


def check_report(case, model, proc, rep, limit, discount, planning=False):
    """What holds for the report of any episode, from the report alone."""
    case.check(all(k in rep for k in KEYS), 'keys of the report: {}', sorted(rep))
    s, a, o, r = rep['states'], rep['actions'], rep['observations'], rep['rewards']
    n = len(a)
    case.check(len(s) == n + 1 and len(o) == n and len(r) == n, '{} states, {} actions, {} observations, {} rewards',
               len(s), n, len(o), len(r))
    final = [is_final(model, proc, x) for x in s]
    case.check(not any(final[:-1]), 'the episode goes on after the final state: {}', final)
    case.check(n == limit or (n < limit and final[-1]), '{} transitions with a limit of {}, {} the final state', n, limit,
               'in' if final[-1] else 'not in')
    start = c11.describe(model, proc, s[0])
    case.check(start[0] in proc.first and start[2] == 0, 'the episode starts in {}', start)
    for i in range(n):
        exp = proc.outcomes(model.actions[a[i]], c11.describe(model, proc, s[i]), True)
        out = (c11.describe(model, proc, s[i + 1]), model.observations[o[i]], float(r[i]))
        case.check(any(k[:2] == out[:2] and abs(k[2] - out[2]) < 1e-6 for k in exp),
                   'step {} of the episode is impossible: {} from {} gives {}', i, model.actions[a[i]],
                   c11.describe(model, proc, s[i]), out)
    total, g = [], 1.
    for x in r:
        total.append(g * float(x))
        g *= discount
    case.close(rep['return'], math.fsum(total), 'return of rewards {} discounted by {}'.format(r[:30], discount))
    case.check(rep['simulator-calls'] == n if not planning else rep['simulator-calls'] >= n,
               '{} simulator calls for {} transitions', rep['simulator-calls'], n)
    case.check(np.isfinite(rep['elapsed-time']) and rep['elapsed-time'] >= 0, 'elapsed time {}', rep['elapsed-time'])
    case.event('reports')
    case.event('report-steps', n)
    case.event('report-complete' if final[-1] else 'report-cut')


def episodes(case):
    from task_models.evaluation import simulate_one_evaluation
    model, proc = random_model(case)
    trace = Trace(model)
    kind = case.rng.choice(['random', 'random', 'planner'])
    pol = RandomPolicy(model) if kind == 'random' else planner(case, model)
    pol = Watched(trace, pol)
    for rank in range(2):
        limit = case.rng.choice([0, 1, 2, 5, 20, 60]) if kind == 'random' else case.rng.choice([0, 1, 2, 5, 12])
        kw = {}
        discounted = True
        if case.rng.random() < .4:
            discounted = kw['discount'] = case.rng.random() < .5
        if case.rng.random() < .9:
            kw['max_horizon'] = limit
        else:
            limit = 200
        lines = []
        if case.rng.random() < .5:
            kw['logger'] = lines.append
        del trace.events[:]
        trace.calls = 0
        before = model.n_simulator_calls
        rep = simulate_one_evaluation(model, pol, **kw)
        case.note(kind=kind, limit=limit, discount=model.discount, discounted=discounted, report=rep)
        case.equal(model.n_simulator_calls - before, trace.calls, 'counter of simulator calls')
        case.equal(rep['simulator-calls'], trace.calls, 'reported simulator calls')
        check_report(case, model, proc, rep, limit, model.discount if discounted else 1., kind == 'planner')
        replay(case, model, trace, rep)
        if 'logger' in kw:
            case.check(lines and all(isinstance(x, str) for x in lines), 'logged {}', lines)
        case.event('kind:' + kind)
        case.key(kind, limit, rep['states'], rep['actions'], rep['rewards'])


def replay(case, model, trace, rep):
    """The report is what the trace says."""
    ev = list(trace.events)
    outside = [e for e in ev if e[0] == 'start' and not e[1]]
    case.check(outside and outside[-1][2] == int(rep['states'][0]), 'the episode starts in {}, sampled {}',
               rep['states'][0], outside)
    ev = [e for e in ev if e[0] != 'start']
    resets = [i for i, e in enumerate(ev) if e[0] == 'reset']
    case.check(resets and resets == list(range(len(resets))), 'resets of the policy at {} in {}', resets,
               [e[0] for e in ev][:10])
    ev = ev[len(resets):]
    n = len(rep['actions'])
    case.equal([e[0] for e in ev if e[0] == 'get_action'], ['get_action'] * n, 'questions to the policy')
    for i in range(n):
        case.check(len(ev) >= 3 * (i + 1), 'step {} of the report is missing from the trace', i)
        get, tr, step = ev[3 * i:3 * i + 3]
        case.equal([get[0], tr[0], step[0]], ['get_action', 'transition', 'step'], 'order of events in step {}'.format(i))
        case.equal(model.actions[rep['actions'][i]], get[-1], 'action of step {}'.format(i))
        case.equal(tr, ('transition', int(rep['actions'][i]), int(rep['states'][i]), int(rep['states'][i + 1]),
                        int(rep['observations'][i]), float(rep['rewards'][i])), 'transition of step {}'.format(i))
        case.equal(step[1], model.observations[rep['observations'][i]], 'observation told at step {}'.format(i))
        case.event('steps-replayed')
    case.equal(len(ev), 3 * n, 'events of the episode')


def evaluations(case):
    from task_models import evaluation
    model, proc = random_model(case)
    n = case.rng.choice([0, 1, 2, 5, 11])
    limit = case.rng.choice([1, 5, 20, 60, 60])
    kw = {'max_horizon': limit}
    if case.rng.random() < .2:
        kw = {}
        limit = 200
    case.reseed_global('evaluate')
    planning = case.rng.random() < .2
    p = case.rng.choice([0., .1, .7])
    pol = planner(case, model) if planning else RandomPolicy(model, p)
    if planning:
        limit = kw['max_horizon'] = 3
    before = model.n_simulator_calls
    reps = evaluation.evaluate(model, pol, n, **kw)
    case.note(n=n, limit=limit, reports=reps[:2])
    case.equal(len(reps), n, 'number of evaluations')
    case.check(model.n_simulator_calls >= before, 'simulator calls of the caller')
    for r in reps:
        check_report(case, model, proc, r, limit, model.discount, planning)
    case.event('repeated-evaluation')
    case.key(n, limit, [r['states'] for r in reps])
    # Long random episodes are not the same again
    long = [tuple(r['actions']) for r in reps if len(r['actions']) >= 20 and p < .2 and not planning]
    case.check(len(set(long)) == len(long), 'evaluations repeat the same episode: {}', long[:2])
    if len(long) > 1:
        case.event('distinct-episodes', len(long))


def strict(text):
    def bad(x):
        raise core.Violation('the result file holds {}'.format(x))
    return json.loads(text, parse_constant=bad)


def plain(x):
    """What strict JSON holds for these values."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


def experiments(case):
    from task_models.evaluation import SupportiveExperiment, ExpLauncher
    model, proc = random_model(case, max_leaves=2)
    limit = case.rng.choice([None, 1, 3, 10])
    built = []

    class Experiment(SupportiveExperiment):

        EVALUATE_ARGUMENTS = {} if limit is None else {'max_horizon': limit}

        def init_run(self):
            built.append(self)
            self.model = model
            if self.parameters['policy'] == 'pomcp':
                self.init_pomcp_policy()
                self.policy = Depletable(model, self.policy)
            else:
                self.policy = RandomPolicy(model)

        def finish_run(self):
            built.append('finished')
    defaults = dict(SupportiveExperiment.DEFAULT_PARAMETERS)
    params = {'n_evaluations': case.rng.choice([1, 2, 5]), 'policy': case.rng.choice(['random', 'random', 'pomcp']),
              'n_warmup': 2, 'iterations': 3, 'n_particles': 10,
              'horizon-type': case.rng.choice(['htm', 'transitions']), 'horizon-length': case.rng.randint(1, 3),
              'p_preference': case.rng.random()}
    if limit is None and params['policy'] == 'pomcp':
        limit = 3
        Experiment.EVALUATE_ARGUMENTS = {'max_horizon': limit}
    name = case.rng.choice(['result', 'horizon-1.5', 'some job.2', 'x.json'])
    path = os.path.join(tempfile.mkdtemp(dir=case.ctx.scratch), name + '.json')
    debug = case.rng.random() < .2
    how = case.rng.choice(['direct', 'direct', 'serialized', 'arguments'])
    case.note(parameters=params, how=how, debug=debug, limit=limit)
    config = path + '.config'
    with io.open(config, 'w') as f:
        json.dump(params, f)
    stored = how != 'direct' or case.rng.random() < .8
    if stored:
        gen.previous(case, path)
    t0 = time.time()
    if how == 'direct':
        exp = Experiment(parameters=dict(params))
        if stored:
            exp.path = path
        exp.run(debug=debug)
    elif how == 'serialized':
        exp = Experiment.load_from_serialized(config)
        exp.path = path
        exp.run(debug=debug)
    else:
        argv = sys.argv
        sys.argv = ['job', config, os.path.dirname(path), name] + (['--debug'] if debug else [])
        try:
            Experiment.run_from_arguments()
        finally:
            sys.argv = argv
        exp = built[0]
    case.equal(SupportiveExperiment.DEFAULT_PARAMETERS, defaults, 'default parameters after a run')
    case.equal(built[1:], ['finished'], 'calls of finish_run')
    expected = dict(defaults)
    expected.update(params)
    if debug:
        quick = SupportiveExperiment(parameters=dict(params))
        quick.set_debug_parameters()
        expected = dict(quick.parameters)
        case.check(all(expected[k] <= defaults[k] for k in ('n_warmup', 'n_evaluations', 'iterations', 'n_particles')),
                   'the parameters of the debug mode are {}', expected)
        case.event('debug runs')
    case.equal(exp.results['parameters'], expected, 'parameters of the results')
    reps = exp.results['evaluations']
    case.equal(len(reps), expected['n_evaluations'], 'number of evaluations')
    took = time.time() - t0
    for r in reps:
        # each in a new process; the system counts whole seconds
        case.check(r['elapsed-time'] <= took + 2, 'an evaluation took {} s of a run of {} s', r['elapsed-time'], took)
        check_report(case, model, proc, r, 200 if limit is None else limit, model.discount, params['policy'] == 'pomcp')
    case.check(exp.results['t_warmup'] >= 0, 'warmup time {}', exp.results['t_warmup'])
    if exp.path is None:
        case.check(not os.path.exists(path), 'a result file was written without a path')
    else:
        text = io.open(path, encoding='utf-8').read()
        data = strict(text)
        case.check(data == plain(exp.results), 'the result file holds {} instead of {}', data, plain(exp.results))
        case.event('result-file')
        job = type('Job', (), {'path': os.path.dirname(path), 'name': name})()
        returns, times, calls = ExpLauncher.get_results_from_one(job)
        case.equal([list(returns), list(times), list(calls)],
                   [[r['return'] for r in reps], [r['elapsed-time'] for r in reps],
                    [r['simulator-calls'] for r in reps]], 'results read back')
        launcher = ExpLauncher()
        launcher.jobs = {'x': job, 'y': job}
        got = launcher.get_results()
        case.check(sorted(got) == ['x', 'y'] and all(list(v[0]) == list(returns) for v in got.values()),
                   'results of all jobs: {}', got)
    case.event('experiments')
    case.event('experiment:' + how)
    case.key(params, how, debug, [r['states'] for r in reps])


def settings(case):
    """The planner of an experiment is the one its parameters describe."""
    from task_models.evaluation import SupportiveExperiment, FinishedOrNTransitionsHorizon
    from task_models.lib.pomcp import POMCPPolicyRunner
    from task_models.supportive import NHTMHorizon
    r = case.rng
    model, proc = random_model(case)
    p = {'iterations': r.choice([1, 7, 30]), 'rollout-iterations': r.choice([1, 2, 4]),
         'exploration': r.choice([0, 1., 50, 300.]), 'relative-explo': r.random() < .4,
         'n_particles': r.choice([2, 10, 40]), 'horizon-type': r.choice(['htm', 'transitions']),
         'horizon-length': r.randint(1, 4), 'policy': 'pomcp', 'n_warmup': 60,
         'belief-values': r.random() < .05}
    defaults = dict(SupportiveExperiment.DEFAULT_PARAMETERS)
    for k in list(p):       # left at the default value
        if r.random() < .15 and k not in ('n_particles', 'iterations', 'n_warmup'):
            del p[k]

    class Experiment(SupportiveExperiment):

        def init_run(self):
            self.model = model
            self.init_pomcp_policy()
    exp = Experiment(parameters=dict(p))
    if r.random() < .2:
        exp.set_debug_parameters()
    full = dict(exp.parameters)
    case.note(parameters=p)
    # experiments share nothing: not with each other, not with the defaults, not with the caller
    bare = Experiment() if r.random() < .5 else Experiment(parameters=r.choice([None, {}]))
    case.equal(bare.parameters, defaults, 'parameters of an experiment created without any')
    if r.random() < .5:
        bare.set_debug_parameters()
    bare.parameters['n_warmup'] = 3
    bare.parameters['other'] = 1
    after = [dict(SupportiveExperiment.DEFAULT_PARAMETERS), Experiment().parameters, exp.parameters]
    SupportiveExperiment.DEFAULT_PARAMETERS.clear()
    SupportiveExperiment.DEFAULT_PARAMETERS.update(defaults)
    case.equal(after, [defaults, defaults, full], 'defaults, parameters of a later and of an earlier experiment, '
               'once those of one without any are changed')
    cls = {'htm': NHTMHorizon, 'transitions': FinishedOrNTransitionsHorizon}[full['horizon-type']]

    def own():
        exp.init_run()
        return exp.policy

    def reference():
        return POMCPPolicyRunner(
            model, iterations=full['iterations'], rollout_it=full['rollout-iterations'],
            horizon=cls.generator(model, n=full['horizon-length']), exploration=full['exploration'],
            relative_exploration=full['relative-explo'], belief='particle',
            belief_values=full['belief-values'],
            belief_params={'n_particles': full['n_particles']})
    seed = r.randrange(2 ** 31)
    if full['belief-values']:   # not with particles: refused rather than ignored
        case.raises(ValueError, own, 'an experiment with belief values and particles')
        case.raises(ValueError, reference, 'a planner with belief values and particles')
        case.event('belief values')
        return
    out = []
    for make in (own, reference):
        np.random.seed(seed)
        pol = make()
        out.append([pol.get_action(iterations=60), pol.get_action(), json.dumps(
            pol.trajectory_trees_from_starts(qvalue=True), default=float), np.random.rand(),
            pol.tree.root.n_simulations])
    case.check(out[0] == out[1], 'with parameters {} the planner of the experiment gives {} and one with these settings {}',
               full, core.short(out[0], 400), core.short(out[1], 400))
    case.equal(out[0][4], 60 + full['iterations'], 'number of simulations')
    case.equal(SupportiveExperiment.DEFAULT_PARAMETERS, defaults, 'default parameters after a run')
    case.event('planner settings')
    case.key(full, out[0])


def commands(case):
    """Command lines with and without a configuration, and preparing the configurations of jobs."""
    from task_models.evaluation import SupportiveExperiment, ExpLauncher
    r = case.rng
    model, proc = random_model(case, max_leaves=1)
    built = []
    own = {'n_evaluations': r.choice([1, 3]), 'n_warmup': 3, 'iterations': 2, 'policy': 'random', 'extra': r.random()}

    class Experiment(SupportiveExperiment):

        DEFAULT_PARAMETERS = dict(SupportiveExperiment.DEFAULT_PARAMETERS, **own)
        EVALUATE_ARGUMENTS = {'max_horizon': r.choice([1, 4])}

        def init_run(self):
            built.append(self)
            self.model = model
            self.policy = Counting(model)
    d = tempfile.mkdtemp(dir=case.ctx.scratch)
    n_args = r.choice([0, 0, 1, 3])
    flag = r.random() < .4
    debug = r.random() < .3
    config = {'n_evaluations': 2, 'n_warmup': r.choice([0, r.randint(4, 9)]), 'é': 'ü'}
    with io.open(os.path.join(d, 'config'), 'w') as f:
        json.dump(config, f)
    argv = sys.argv
    sys.argv = ['job'] + [os.path.join(d, 'config'), d, 'out'][:n_args] + (['--debug'] if flag else [])
    case.note(arguments=sys.argv[1:], debug=debug, own=own)
    try:
        Experiment.run_from_arguments(**({'debug': True} if debug else {}))
    finally:
        sys.argv = argv
    expected = dict(Experiment.DEFAULT_PARAMETERS)
    if n_args:
        expected.update(config)
    if flag or debug:
        quick = SupportiveExperiment(parameters=expected)
        quick.set_debug_parameters()
        expected = quick.parameters
        case.event('debug runs')
    case.equal(len(built), 1, 'number of runs')
    exp = built[0]
    case.equal(exp.results['parameters'], expected, 'parameters of the run')
    case.equal(exp.policy.asked, [expected['n_warmup']], 'iterations asked for before evaluating')
    case.equal(len(exp.results['evaluations']), expected['n_evaluations'], 'number of evaluations')
    files = sorted(set(os.listdir(d)) - {'config'})
    case.equal(files, ['out.json'] if n_args == 3 else [], 'files written')
    if files:
        case.equal(strict(io.open(os.path.join(d, 'out.json')).read()), plain(exp.results), 'result file')
    for x in exp.results['evaluations']:
        check_report(case, model, proc, x, Experiment.EVALUATE_ARGUMENTS['max_horizon'], model.discount)
    # configurations of jobs are those they run with
    launcher = ExpLauncher()
    exps = {'job {}'.format(i): {'n_evaluations': r.randint(1, 9), 'x': [i, 'é', None], 'y': r.random()}
            for i in range(r.randint(0, 4))}
    launcher.exps = exps
    launcher.jobs = {k: type('Job', (), {'config': os.path.join(d, k + '.config'), 'name': k, 'path': d}) for k in exps}
    for k in exps:
        gen.previous(case, launcher.jobs[k].config)
    launcher.action_prepare()
    for k in exps:
        got = Experiment.load_from_serialized(launcher.jobs[k].config).parameters
        case.equal(got, dict(Experiment.DEFAULT_PARAMETERS, **exps[k]), 'parameters of a prepared job')
        case.event('prepared jobs')
    case.event('command lines')
    case.key(sys.argv[1:], n_args, flag, debug, own, exps)


class Counting(RandomPolicy):

    def __init__(self, model):
        super(Counting, self).__init__(model)
        self.asked = []

    def get_action(self, iterations=None):
        if iterations is not None:
            self.asked.append(iterations)
        return super(Counting, self).get_action()


def encoding(case):
    """The encoder of results writes numpy values as the plain values they stand for."""
    from task_models.lib.utils import NPEncoder
    r = case.rng

    def value(depth):
        c = r.randrange(12)
        if c == 0 and depth:
            return [value(depth - 1) for _ in range(r.randint(0, 3))]
        if c == 1 and depth:
            return {'k{}'.format(i): value(depth - 1) for i in range(r.randint(0, 3))}
        if c == 2:
            return np.array([r.random() for _ in range(r.randint(0, 3))])
        if c == 3:
            return np.arange(r.randint(0, 4)).reshape(-1, 1)
        if c == 4:
            return r.choice([np.int64, np.int32, np.uint8])(r.randrange(200))
        if c == 5:
            return r.choice([np.float64, np.float32])(r.random() * 100)
        if c == 6:
            return r.choice([None, True, False, '', 'é"\n'])
        if c == 7:
            return tuple(value(0) for _ in range(2))
        if c == 8:
            return np.random.RandomState(r.randrange(100)).rand(2, 2)
        return r.choice([r.random() * 1e9, -r.random(), r.randrange(-10 ** 12, 10 ** 12), 1e-300])
    v = value(4)
    case.note(value=repr(v)[:500])
    case.equal(strict(json.dumps(v, cls=NPEncoder)), plain(v), 'JSON of {}'.format(repr(v)[:300]))
    case.raises(TypeError, lambda: json.dumps({'x': object()}, cls=NPEncoder), 'JSON of an unknown object')
    case.event('encoded')
    case.key(repr(v))


JOBS = [('supportive_evaluation_preference_job.py', [{'policy': p, 'p_preference': q} for p in
                                                     ('always-hold', 'never-hold', 'pomcp') for q in (0., .3, 1.)]),
        ('supportive_evaluation_multitask_job.py', [{'policy': p, 'task': t, 'n_subtasks': 3} for p, t in
                                                    (('random', 'alternative'), ('random', 'uniform'),
                                                     ('repeat', 'sequence'), ('pomcp', 'sequence'),
                                                     ('random', 'sequence'), ('pomcp', 'alternative'))]),
        ('supportive_evaluation_pomcp_job.py', [{'intermediate-rewards': i, 'horizon-type': h} for i in (True, False)
                                                for h in ('htm', 'transitions')])]
SHIPPED = [(name, p) for name, ps in JOBS for p in ps]


def load_job(name):
    """Experiment class of a shipped script, which runs itself when executed."""
    from task_models.evaluation import SupportiveExperiment
    path = os.path.join(core.REPO, 'samples', name)
    keep = SupportiveExperiment.__dict__['run_from_arguments']
    SupportiveExperiment.run_from_arguments = classmethod(lambda cls, *a, **k: None)
    try:
        ns = {'__name__': 'job', '__file__': path}
        exec(compile(io.open(path, encoding='utf-8').read(), path, 'exec'), ns)
    finally:
        SupportiveExperiment.run_from_arguments = keep
    return ns['Experiment']


def shipped(case):
    name, params = SHIPPED[case.index % len(SHIPPED)]
    case.note(job=name, parameters=params)
    cls = load_job(name)
    p = dict(params, n_evaluations=3, n_warmup=2, iterations=3, n_particles=8)
    p['horizon-length'] = 2

    cls.EVALUATE_ARGUMENTS = {'max_horizon': 15 if params.get('policy') != 'pomcp' and
                              'horizon-type' not in params else 4}
    limit = cls.EVALUATE_ARGUMENTS['max_horizon']
    class Experiment(cls):

        def init_run(self):
            super(Experiment, self).init_run()
            if hasattr(self.policy, 'tree'):
                self.policy = Depletable(self.model, self.policy)
    exp = Experiment(parameters=p)
    exp.path = os.path.join(tempfile.mkdtemp(dir=case.ctx.scratch), 'result.json')
    case.reseed_global('shipped')
    exp.run()
    model = exp.model
    reps = exp.results['evaluations']
    case.equal(len(reps), 3, 'number of evaluations')
    for r in reps:
        n = len(r['actions'])
        final = [model._int_to_state(s).is_final() for s in r['states']]
        case.check(not any(final[:-1]) and (n == limit or final[-1]) and n <= limit,
                   '{} transitions with a limit of {}, final: {}', n, limit, final)
        g = [model.discount ** i * x for i, x in enumerate(r['rewards'])]
        case.close(r['return'], math.fsum(g), 'return')
        case.check(r['simulator-calls'] >= n, 'simulator calls')
        if params.get('policy') == 'never-hold':
            case.check(not any(model.actions[a].startswith('hold') for a in r['actions']),
                       'the never-hold policy holds')
            case.event('never-hold-episode')
        case.event('shipped-episode')
    case.equal(strict(io.open(exp.path).read()), plain(exp.results), 'result file')
    case.key(name, sorted(params.items()), [r['states'] for r in reps])


class Endless(Exception):
    pass


NUMBER = re.compile(r'-?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?')


def played(case):
    """The log of a trajectory played by the planner itself."""
    from task_models.lib.belief import MaxSamplesReached
    from task_models.lib.pomcp import POMCPPolicyRunner
    from task_models.supportive import NHTMHorizon
    model, proc = random_model(case, max_leaves=2)
    if case.rng.random() < .5:
        model.p_changed_by_human = proc.p['p_changed_by_human'] = 0.
        model.p_change_preference = proc.p['p_change_preference'] = 0.
        proc.cache.clear()
    pol = POMCPPolicyRunner(model, iterations=case.rng.choice([5, 20]), horizon=NHTMHorizon.generator(model, n=2),
                            exploration=10., belief='particle', belief_params={'n_particles': 60},
                            logger=lambda *a: None)
    if case.rng.random() < .5:      # somewhere else before
        pol.get_action()
        try:
            pol.step('none')
        except (MaxSamplesReached, ValueError):
            pass
    events, depth = [], [0]
    start, transition, get, step = model.sample_start, model.sample_transition, pol.get_action, pol.step

    def sample_start(*a, **k):
        s = start(*a, **k)
        if not depth[0]:
            events.append(('start', int(s)))
        return s

    def sample_transition(a, s, *x, **k):
        out = transition(a, s, *x, **k)
        if not depth[0]:
            events.append(('transition', int(a), int(s), int(out[0]), int(out[1]), float(out[2])))
            if len(events) > 400:
                raise Endless()
        return out

    def get_action(*x, **k):
        depth[0] += 1
        try:
            a = get(*x, **k)
        finally:
            depth[0] -= 1
        events.append(('action', a, len(pol.history)))
        return a

    def told(o):
        depth[0] += 1
        try:
            step(o)
        finally:
            depth[0] -= 1
        events.append(('step', o, [float(x) for x in pol.belief.array]))

    model.sample_start, model.sample_transition, pol.get_action, pol.step = sample_start, sample_transition, get_action, told
    lines = []
    ended = None
    try:
        pol.run_trajectory(logger=lines.append)
    except (MaxSamplesReached, Endless) as e:
        ended = type(e).__name__
    steps = [l for l in lines if '-->' in l]
    beliefs = [l for l in lines if l.startswith('belief')]
    totals = [l for l in lines if l.startswith('Total')]
    ev = list(events)
    starts = [e for e in ev if e[0] == 'start']
    case.check(starts, 'the trajectory does not start in a sampled state')
    ev = [e for e in ev if e[0] != 'start']
    s, total, n = starts[-1][1], [], len(ev) // 3
    case.note(events=events[:12], lines=lines[:6], ended=ended)
    if ended is None:
        case.equal(len(ev), 3 * n, 'events of the trajectory')
        case.equal((len(steps), len(beliefs), len(totals)), (n, n, 1), 'lines for {} steps'.format(n))
    else:
        case.equal(totals, [], 'total of an unfinished trajectory')
    for i, line in enumerate(steps):
        act, tr, tell = ev[3 * i:3 * i + 3]
        case.equal((act[0], tr[0], tell[0]), ('action', 'transition', 'step'), 'order of events in step {}'.format(i))
        case.check(not is_final(model, proc, s), 'the trajectory goes on after the final state')
        case.equal(act[2], 2 * i, 'length of the history of the planner at step {}'.format(i))
        case.equal((model.actions[tr[1]], tr[2]), (act[1], s), 'action and state simulated at step {}'.format(i))
        case.equal(tell[1], model.observations[tr[4]], 'observation told at step {}'.format(i))
        parts = [str(model._int_to_state(s)), act[1], str(model._int_to_state(tr[3])), tell[1]]
        pos = 0
        for x in parts:
            at = line.find(x, pos)
            case.check(at >= 0, 'line {!r} does not show {!r} in its place', line, x)
            pos = at + len(x)
        shown = NUMBER.findall(line[pos:])
        case.check(shown and abs(float(shown[-1]) - tr[5]) < 1e-9 * (1 + abs(tr[5])), 'line {!r}: reward {}', line, tr[5])
        total.append(tr[5])
        s = tr[3]
        if i < len(beliefs):
            # step probabilities to one digit, probability of the preference to two
            q, pref = [0.] * (len(model.htm_nodes) + 2), 0.
            names = [x.name for x in model.htm_nodes] + ['clean', 'final']
            for k, p in enumerate(tell[2]):
                if p > 0:
                    d = c11.describe(model, proc, k)
                    q[names.index(d[0])] += p
                    pref += p * d[1][0]
            left, right = beliefs[i].rsplit('|', 1)
            got = [float(x) for x in NUMBER.findall(left)]
            case.check(len(got) == len(q) and all(abs(a - b) < .0501 for a, b in zip(got, q)),
                       'belief over steps {} shown as {!r}', q, beliefs[i])
            case.check(abs(float(right) - pref) < .00501, 'belief on the preference {} shown as {!r}', pref, beliefs[i])
            case.event('played beliefs')
        case.event('played steps')
    if ended is None:
        case.check(is_final(model, proc, s), 'the trajectory stops before the final state')
        case.close(float(NUMBER.findall(totals[0])[-1]), math.fsum(total), 'total of rewards {}'.format(total), 1e-4)
        case.event('played to the end')
    case.key([e[:4] for e in events if e[0] != 'step'])


def run(ctx):
    ctx.cases('episodes', ctx.n(300, 6000), episodes)
    ctx.cases('evaluations', ctx.n(75, 600), evaluations, wall=120)
    ctx.cases('experiments', ctx.n(75, 600), experiments, wall=120)
    ctx.cases('settings', ctx.n(80, 1000), settings)
    ctx.cases('commands', ctx.n(60, 600), commands, wall=120)
    ctx.cases('encoding', ctx.n(150, 3000), encoding)
    ctx.cases('played', ctx.n(120, 1500), played)
    ctx.cases('shipped', ctx.n(len(SHIPPED), 6 * len(SHIPPED)), shipped, wall=120)
    for e, m in (('reports', 250), ('report-steps', 900), ('report-complete', 50), ('report-cut', 100),
                 ('steps-replayed', 500), ('kind:planner', 50), ('kind:random', 100), ('repeated-evaluation', 30),
                 ('distinct-episodes', 2), ('result-file', 20), ('experiment:direct', 5), ('experiment:serialized', 3),
                 ('experiment:arguments', 3), ('encoded', 100), ('shipped-episode', 30), ('never-hold-episode', 3),
                 ('played steps', 100), ('played beliefs', 100), ('played to the end', 15),
                 ('planner settings', 60), ('debug runs', 5), ('prepared jobs', 20), ('command lines', 40)):
        ctx.require(e, m)
