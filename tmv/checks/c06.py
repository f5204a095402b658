"""C06: solving loads exactly the solver's policy or raises, and leaves nothing behind."""
import json
import os
import shutil
import tempfile

import numpy as np

from .. import gen, policies, pomdpfile

PROPERTY = 'C06'
LEVEL = 'fault_enumeration'
RULE = ('a stand-in solver records what it is given and writes a generated policy, intact or with one of many injected '
        'faults; the arguments, model file, returned policy, exceptions and left-over files are checked. Several stand-ins in generated search paths show which one is run. The parsers '
        'and the loader are also driven directly on the same texts. Non-trivial: distinct (fault, policy, options).')
ASSUMPTIONS = ['pomdp-solve is not installed: a stand-in writes files in its documented output format',
               'faults that leave a well-formed, consistent pair of files (e.g. a truncated digit) are undetectable '
               'and are not injected']

FAULTS = ['exit', 'exit-no-files', 'kill', 'no-alpha', 'no-pg', 'nothing', 'empty-alpha', 'empty-pg', 'alpha-cut-vector',
          'alpha-drop-entry', 'pg-drop-line', 'action-mismatch', 'action-range', 'action-negative', 'succ-range',
          'succ-far', 'succ-negative', 'vector-short', 'vectors-short', 'vectors-long', 'row-long', 'row-short',
          'rows-long', 'rows-short', 'pg-index', 'pg-order', 'garbage-alpha', 'garbage-pg']


def fmt(x):
    return repr(float(x))


def texts(nodes, values, transitions):
    alpha = ''.join('{}\n{} \n\n'.format(a, ' '.join(fmt(x) for x in v)) for a, v in zip(nodes, values))
    pg = ''.join('{} {}  {} \n'.format(i, a, ' '.join('-' if t is None else str(t) for t in ts))
                 for i, (a, ts) in enumerate(zip(nodes, transitions)))
    return alpha, pg


def solver_output(case, p):
    """A policy in solver terms (action indices)."""
    a, s, o = p['O'].shape
    r = case.np
    n = r.randint(1, 7)
    p_none = [0., .3, 1.][r.randint(3)]
    nodes = [int(r.randint(a)) for _ in range(n)]
    transitions = [[None if r.rand() < p_none else int(r.randint(n)) for _ in range(o)] for _ in range(n)]
    values = np.round(r.randn(n, s) * 10, 6)
    return nodes, values, transitions


def inject(case, fault, p, nodes, values, transitions):
    """Returns (plan, applies)."""
    a, s, o = p['O'].shape
    n = len(nodes)
    r = case.np
    values = [list(v) for v in values]
    nodes_a, nodes_p = list(nodes), list(nodes)
    transitions = [list(t) for t in transitions]
    i = int(r.randint(n))
    j = int(r.randint(o))
    if fault == 'action-mismatch':
        if a < 2:
            return None
        nodes_p[i] = (nodes_p[i] + 1 + int(r.randint(a - 1))) % a
    elif fault == 'action-range':
        nodes_a[i] = nodes_p[i] = a + int(r.randint(3))
    elif fault == 'action-negative':
        nodes_a[i] = nodes_p[i] = -1
    elif fault == 'succ-range':
        transitions[i][j] = n
    elif fault == 'succ-far':
        transitions[i][j] = n + 1 + int(r.randint(10))
    elif fault == 'succ-negative':
        transitions[i][j] = -1 - int(r.randint(2))
    elif fault == 'vector-short':
        if s < 2 or n < 2:
            return None
        values[i].pop()
    elif fault == 'vectors-short':
        if s < 2:
            return None
        [v.pop() for v in values]
    elif fault == 'vectors-long':
        [v.append(1.) for v in values]
    elif fault == 'row-long':
        transitions[i].append(0)
    elif fault == 'row-short':
        if o < 2:
            return None
        transitions[i].pop()
    elif fault == 'rows-long':
        [t.append(None) for t in transitions]
    elif fault == 'rows-short':
        if o < 2:
            return None
        [t.pop() for t in transitions]
    alpha, _ = texts(nodes_a, values, transitions)
    _, pg = texts(nodes_p, values, transitions)
    plan = {'write': {'alpha': alpha, 'pg': pg}}
    w = plan['write']
    if fault == 'exit':
        plan['exit'] = int(r.randint(1, 120))
    elif fault == 'exit-no-files':
        plan.update(exit=1, write={})
    elif fault == 'kill':
        plan['kill'] = [9, 15, 6][r.randint(3)]
    elif fault == 'no-alpha':
        del w['alpha']
    elif fault == 'no-pg':
        del w['pg']
    elif fault == 'nothing':
        plan['write'] = {}
    elif fault == 'empty-alpha':
        w['alpha'] = ['', '\n', '\n\n'][r.randint(3)]
    elif fault == 'empty-pg':
        w['pg'] = ''
    elif fault == 'alpha-cut-vector':
        w['alpha'] = '\n'.join(alpha.rstrip('\n').split('\n')[:-1]) + '\n'
    elif fault == 'alpha-drop-entry':
        entries = alpha.split('\n\n')[:-1]
        del entries[i]
        w['alpha'] = '\n\n'.join(entries) + '\n\n'
    elif fault == 'pg-drop-line':
        lines = pg.split('\n')[:-1]
        del lines[-1]
        w['pg'] = ''.join(l + '\n' for l in lines)
    elif fault == 'pg-index':
        lines = pg.split('\n')[:-1]
        l = lines[i].split(' ')
        l[0] = str(int(l[0]) + 1)
        lines[i] = ' '.join(l)
        w['pg'] = ''.join(l + '\n' for l in lines)
    elif fault == 'pg-order':
        lines = pg.split('\n')[:-1]
        if len(lines) < 2:
            return None
        lines.reverse()
        w['pg'] = ''.join(l + '\n' for l in lines)
    elif fault == 'garbage-alpha':
        w['alpha'] = ['garbage', '<html>\n</html>\n', 'nan-such\n1 2\n'][r.randint(3)]
    elif fault == 'garbage-pg':
        w['pg'] = ['garbage', '0 zero  1\n', '<html>\n'][r.randint(3)]
    return plan


def decorate(case, plan):
    """Variations of layout that denote the same policy."""
    w = plan['write']
    k = case.rng.randrange(4)
    if k == 1:
        w['alpha'] = '\n' + w['alpha'].replace('\n\n', '\n\n\n')
    elif k == 2:
        w['pg'] = w['pg'] + '\n'
    elif k == 3:
        w['alpha'] = w['alpha'].rstrip('\n') + '\n'


def check_policy(case, gp, p, nodes, values, transitions, start, what):
    names = list(range(p['O'].shape[0])) if p.get('actions') is None else p['actions']
    obs = list(range(p['O'].shape[2])) if p.get('observations') is None else list(p['observations'])
    parts = dict(actions=[names[i] for i in nodes], observations=obs, transitions=transitions, values=values)
    policies.same(case, gp, parts, what, init=False)
    case.check(int(gp.init) in policies.best_nodes(values, start), '{}: initial node {} is not the best of {}', what,
               gp.init, policies.best_nodes(values, start))


def case_solve(case):
    p = gen.pomdp_parts(case, max_s=4)
    m = gen.make_pomdp(p)
    nodes, values, transitions = solver_output(case, p)
    fault = None
    if case.index % 2:
        fault = FAULTS[(case.index // 2) % len(FAULTS)]
        plan = inject(case, fault, p, nodes, values, transitions)
        if plan is None:
            fault = 'exit'
            plan = inject(case, fault, p, nodes, values, transitions)
    else:
        alpha, pg = texts(nodes, values, transitions)
        plan = {'write': {'alpha': alpha, 'pg': pg}}
        decorate(case, plan)
    plan['say'] = 'chatter'
    kw = {}
    r = case.rng
    if r.random() < .5:
        kw['timeout'] = r.choice([0, 1, 30, 3600, 1234567, .5, 90.25])
    if r.random() < .5:
        kw['n_iterations'] = r.choice([0, 1, 10, 500])
    if r.random() < .6:
        kw['seed'] = r.choice([0, 1, 12345, 2 ** 31])
    if r.random() < .6:
        kw['method'] = r.choice(['grid', 'grid', 'incprune'])
        if r.random() < .5:
            kw['grid_type'] = r.choice(['simplex', 'pairwise'])
    root = os.path.join(case.ctx.scratch, 's{}-{}'.format(os.getpid(), case.index))
    tmp = os.path.join(root, 'tmp')
    work = os.path.join(root, 'work')
    os.makedirs(tmp)
    os.makedirs(work)
    plan_path = os.path.join(root, 'plan')
    with open(plan_path, 'w') as f:
        json.dump(plan, f)
    os.environ['TMV_SOLVER_PLAN'] = plan_path
    os.environ['TMPDIR'] = tmp
    old_cwd = os.getcwd()
    old_tmp, tempfile.tempdir = tempfile.tempdir, tmp
    os.chdir(work)
    error = result = None
    try:
        try:
            result = m.solve(**kw)
        except Exception as e:
            error = e
    finally:
        tempfile.tempdir = old_tmp
        os.chdir(old_cwd)
    case.note(fault=fault, options=kw, shape=p['O'].shape, nodes=nodes, transitions=transitions,
              error=repr(error)[:120])
    case.key('solve', fault, sorted(kw), nodes, transitions)
    case.equal(os.listdir(tmp), [], 'temporary files left after solving')
    case.equal(os.listdir(work), [], 'files left in the working directory')
    case.check(os.path.exists(plan_path + '.record'), 'the solver was not run ({!r})', error)
    with open(plan_path + '.record') as f:
        rec = json.load(f)
    check_argv(case, rec, kw)
    pomdpfile.compare(case, rec['model'], p, 'file given to the solver')
    case.check(not os.path.exists(rec['cwd']), 'the solver directory remains')
    if fault is not None:
        case.check(error is not None, 'solving returned {} although the solver failed ({})', result, fault)
        case.event('fault-raised')
        case.event('fault:' + fault)
    else:
        if error is not None:
            case.fail('solving raised {!r} on correct solver output'.format(error))
        check_policy(case, result, p, nodes, values, transitions, p['start'], 'policy returned')
        case.event('solved')
    for f in (plan_path, plan_path + '.record'):
        os.remove(f)
    os.rmdir(tmp)
    os.rmdir(work)
    os.rmdir(root)


def check_argv(case, rec, kw):
    argv = rec['argv']
    case.check(len(argv) % 2 == 0, 'odd solver arguments: {}', argv)
    opts = {}
    for k, v in zip(argv[::2], argv[1::2]):
        case.check(k not in opts, 'solver option {} given twice', k)
        opts[k] = v
    exp = {}
    if 'timeout' in kw:
        exp['-time_limit'] = str(kw['timeout'])
    if 'n_iterations' in kw:
        exp['-horizon'] = str(kw['n_iterations'])
    if 'seed' in kw:
        exp['-rand_seed'] = str(kw['seed'])
    if kw.get('method') == 'grid':
        exp['-method'] = 'grid'
        exp['-fg_type'] = kw.get('grid_type', 'simplex')
    for k, v in exp.items():
        got = opts.pop(k, None)
        if k == '-time_limit':
            case.check(got is not None and float(got) == float(v), 'time limit given to the solver: {} for {}', got, v)
        else:
            case.equal(got, v, 'solver option ' + k)
    if 'seed' not in kw:
        case.check(str(opts.pop('-rand_seed', '')).isdigit(), 'no seed given to the solver: {}', argv)
    if opts.get('-method') == 'incprune':       # the default, may be given
        opts.pop('-method')
    out = opts.pop('-o', None)
    model = opts.pop('-pomdp', None)
    case.check(out is not None and model is not None, 'no input or output given to the solver: {}', argv)
    case.equal(opts, {}, 'further solver options')
    case.check(rec['model'] is not None, 'the model file does not exist')
    case.event('argv')


def case_located(case):
    """The solver run is the one of the directories given; without one, the model is refused."""
    from task_models.lib.pomdp import SOLVER_NAME
    r = case.rng
    p = gen.pomdp_parts(case, max_s=3)
    nodes, values, transitions = solver_output(case, p)
    alpha, pg = texts(nodes, values, transitions)
    root = os.path.join(case.ctx.scratch, 'w{}-{}'.format(os.getpid(), case.index))
    names = ['one', 'two', 'a b']
    empty = r.choice(['one', 'two', 'all', 'none'])
    for n in names:
        os.makedirs(os.path.join(root, n, 'bin'))
        if empty not in (n, 'all'):
            path = os.path.join(root, n, 'bin', SOLVER_NAME)
            with open(path, 'w') as f:
                f.write('#!/bin/sh\nTMV_SOLVER_PLAN={} exec {} "$@"\n'.format(
                    os.path.join(root, n, 'plan').replace(' ', '\\ '), case.ctx.solver))
            os.chmod(path, 0o755)
    kind = r.choice(['absolute', 'relative', 'relative', 'list', 'mixed'])
    order = r.sample(names, r.randint(1, 3) if kind in ('list', 'mixed') else 1)
    dirs = [os.path.join(n, 'bin') if kind == 'relative' or kind == 'mixed' and r.random() < .5
            else os.path.join(root, n, 'bin') for n in order]
    exp = next((n for n in order if empty not in (n, 'all')), None)
    how = r.choice(['argument', 'PATH'])
    case.note(kind=kind, directories=dirs, without=empty, how=how)
    for n in names:
        with open(os.path.join(root, n, 'plan'), 'w') as f:
            json.dump({'write': {'alpha': alpha, 'pg': pg}}, f)
    cwd, path = os.getcwd(), os.environ['PATH']
    moved = r.random() < .3
    os.chdir(root)
    try:
        def build():
            if how == 'argument':
                return gen.make_pomdp(p, solver_path=os.pathsep.join(dirs))
            os.environ['PATH'] = os.pathsep.join(dirs)
            try:
                return gen.make_pomdp(p)
            finally:
                os.environ['PATH'] = path
        if exp is None:
            case.raises(ImportError, build, 'a model without solver ({})'.format(dirs))
            case.event('no solver')
        else:
            m = build()
            if moved:
                os.chdir(cwd)
            gp = m.solve()
            check_policy(case, gp, p, nodes, values, transitions, p['start'], 'policy returned')
            ran = [n for n in names if os.path.exists(os.path.join(root, n, 'plan.record'))]
            case.equal(ran, [exp], 'solvers run')
            case.event('located: ' + kind)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)
    case.key('located', kind, how, empty, dirs, nodes)


def case_load(case):
    """Loading and parsing, without running anything."""
    from task_models.lib.pomdp import parse_policy_graph, parse_value_function
    p = gen.pomdp_parts(case, max_s=4)
    m = gen.make_pomdp(p)
    nodes, values, transitions = solver_output(case, p)
    d = os.path.join(case.ctx.scratch, 'l{}-{}'.format(os.getpid(), case.index))
    os.makedirs(d)
    faults = [f for f in FAULTS if f not in ('exit', 'exit-no-files', 'kill')]
    fault = None
    if case.index % 2:
        fault = faults[(case.index // 2) % len(faults)]
        plan = inject(case, fault, p, nodes, values, transitions)
        if plan is None:
            fault, plan = 'no-pg', inject(case, 'no-pg', p, nodes, values, transitions)
    else:
        alpha, pg = texts(nodes, values, transitions)
        plan = {'write': {'alpha': alpha, 'pg': pg}}
        decorate(case, plan)
    for ext, text in plan['write'].items():
        with open(os.path.join(d, 'x.' + ext), 'w') as f:
            f.write(text)
    case.note(fault=fault, files=plan['write'])
    case.key('load', fault, nodes, transitions)
    if fault is None:
        gp = m.load_policy_from(d, 'x')
        check_policy(case, gp, p, nodes, values, transitions, p['start'], 'policy loaded')
        with open(os.path.join(d, 'x.alpha')) as f:
            acts, vecs = parse_value_function(f)
        case.equal(list(acts), nodes, 'actions of the value function')
        case.close(vecs, values, 'value vectors', 1e-12)
        with open(os.path.join(d, 'x.pg')) as f:
            acts, trans = parse_policy_graph(f)
        case.equal(list(acts), nodes, 'actions of the policy graph')
        case.equal([list(t) for t in trans], transitions, 'successors of the policy graph')
        case.event('loaded')
    else:
        try:
            gp = m.load_policy_from(d, 'x')
        except Exception:
            case.event('load-raised')
            case.event('fault:' + fault)
        else:
            case.fail('a policy is loaded from faulty solver output ({})'.format(fault))
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)


def run(ctx):
    ctx.cases('solve', ctx.n(960, 5000), case_solve)
    ctx.cases('located', ctx.n(200, 1500), case_located)
    ctx.cases('load', ctx.n(6000, 40000), case_load)
    ctx.require('solved', 40)
    ctx.require('fault-raised', 40)
    ctx.require('loaded', 100)
    ctx.require('no solver', 10)
    for k in ('absolute', 'relative', 'list', 'mixed'):
        ctx.require('located: ' + k, 5)
    ctx.require('load-raised', 100)
    for f in FAULTS:
        ctx.require('fault:' + f, 2)
