"""C30: seeded runs are reproducible."""
import json
import os
import subprocess
import sys

from .. import core, sessions

PROPERTY = 'C30'
RULE = ('sessions covering every part of the library (building and exporting models, simulating, filtering, planning '
        'with every kind of belief, running policies, evaluating, expanding tasks, searching graphs) are run with the '
        'same seed in this process and in other processes with another hash seed, another order of sessions, another '
        'working directory, environment and memory layout; everything shown to the user at each step and the final '
        'state of the random stream must be the same. Non-trivial: distinct sessions of more than one step.')
ASSUMPTIONS = ['the order of the reported cliques and chains, of the results of repeated runs, and measured times are '
               'not part of the result']


def run(ctx):
    ctx.cases('processes', ctx.n(16, 320), processes, cpu=300, wall=600)
    ctx.cases('again', ctx.n(240, 6000), again)
    ctx.require('steps compared', 4000)
    ctx.require('sessions', 500)
    for k in sessions.KINDS:
        ctx.require('sessions: ' + k, 8)


def compare(case, kind, number, got, expected, how):
    for i in range(max(len(got), len(expected))):
        x = got[i] if i < len(got) else None
        y = expected[i] if i < len(expected) else None
        if x != y:
            k = next((j for j, (u, v) in enumerate(zip(x or '', y or '')) if u != v), 0)
            case.fail('session {} {} gives at step {} {!r} {} and {!r} here (from character {})'.format(
                kind, number, i, core.short((x or '')[max(0, k - 60):], 250), how,
                core.short((y or '')[max(0, k - 60):], 250), k))
    case.event('sessions')
    case.event('sessions: ' + kind)
    case.event('steps compared', len(got))
    if len(got) > 2:
        case.key(kind, number)


def processes(case):
    r = case.rng
    kinds = sorted(sessions.KINDS)
    todo = [[k, r.randrange(10 ** 6)] for k in kinds for _ in range(2)]
    r.shuffle(todo)
    case.note(sessions=todo)
    here = {}
    for k, n in todo:
        here[k, n] = sessions.isolated(lambda: sessions.alone(k, n))
    d = os.path.join(case.ctx.scratch, 'p{}'.format(case.index))
    os.makedirs(os.path.join(d, 'cwd'))
    other = list(todo)
    r.shuffle(other)
    with open(os.path.join(d, 'todo'), 'w') as f:
        json.dump(other, f)
    seed = r.choice(['random', str(r.randrange(1, 2 ** 32))])
    env = dict(os.environ, PYTHONHASHSEED=seed, TZ=r.choice(['UTC', 'Asia/Tokyo']), LC_ALL=r.choice(['C.UTF-8', 'POSIX']),
               PYTHONPATH=core.REPO + os.pathsep + core.VERIF, MORE='x' * r.randrange(4000), HOME=d, USER='u%d' % r.randrange(9))
    p = subprocess.Popen([sys.executable, '-m', 'tmv.sessions', os.path.join(d, 'todo'), d, os.path.join(d, 'out')],
                         cwd=os.path.join(d, 'cwd'), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        err = p.communicate(timeout=400)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise core.Inconclusive('the other process did not finish')
    case.check(p.returncode == 0, 'the sessions that end here do not in another process (status {}): {}',
               p.returncode, core.short(err.decode()[-300:]))
    with open(os.path.join(d, 'out')) as f:
        for k, n, trace in json.load(f):
            compare(case, k, n, trace, here[k, n], 'in another process')


def again(case):
    """Twice in the same process, other uses in between."""
    r = case.rng
    kind = r.choice(sorted(sessions.KINDS))
    number = r.randrange(10 ** 6)
    others = [(r.choice([kind, r.choice(sorted(sessions.KINDS))]), r.randrange(10 ** 6)) for _ in range(r.choice([0, 1, 1, 3]))]
    case.note(session=[kind, number], before=others)

    def later():
        for k, n in others:
            sessions.alone(k, n)
        return sessions.alone(kind, number)

    def twice():
        return [sessions.alone(kind, number), sessions.alone(kind, number)]
    first, second = sessions.isolated(twice)
    compare(case, kind, number, second, first, 'the second time')
    if others:
        compare(case, kind, number, sessions.isolated(later), first, 'after {}'.format(others))
