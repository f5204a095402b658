"""C04: the exported solver file denotes the same model."""
import os

import numpy as np

from .. import gen, pomdpfile

PROPERTY = 'C04'
RULE = ('random models of many shapes, including hundreds of states or observations and probabilities finer than the '
        'printed precision, are dumped and read back by an independent exact-decimal reader of the POMDP format. '
        'Non-trivial: distinct (shape, names, contents).')


def finish(case, p, cost):
    m = gen.make_pomdp(p, values='cost' if cost else 'reward')
    if case.rng.random() < .2:
        # as it is now, whatever it was when dumped before
        if case.rng.random() < .7:
            m.dump()
        p, cost = gen.edit_model(case, m, p), False
    keep = {k: getattr(m, k).copy() for k in ('T', 'O', 'R', 'start')}
    text = m.dump()
    pomdpfile.compare(case, text, p, cost=cost)
    case.equal(m.dump(), text, 'the same model dumped twice')
    for k, v in keep.items():
        case.check((getattr(m, k) == v).all(), 'dumping modified {}', k)
    d = os.path.join(case.ctx.scratch, 'd{}-{}'.format(os.getpid(), case.index))
    os.makedirs(d)
    name = case.rng.choice(['some-name', 'model-1.5', 'with space.v2', 'x.pomdp'])
    gen.previous(case, os.path.join(d, name + '.pomdp'))
    path = m.dump_to(d, name)
    case.check(os.listdir(d) == [name + '.pomdp'], 'files written: {}', os.listdir(d))
    case.check(os.path.samefile(path, os.path.join(d, name + '.pomdp')), 'path returned: {}', path)
    with open(path) as f:
        case.equal(f.read(), text, 'file content')
    os.remove(path)
    os.rmdir(d)
    case.event('files')
    case.event('rows', p['O'].shape[0] * p['O'].shape[1] * 2 + 1)
    case.note(shape=p['O'].shape, named='states' in p, text=text[:400])
    case.key(p['O'].shape, 'states' in p, p['T'].tobytes())


def case_small(case):
    p = gen.pomdp_parts(case)
    if case.rng.random() < .3:
        p['R'] = p['R'] * 10. ** case.rng.randint(-4, 5)
    if case.rng.random() < .2 and 'states' in p:
        del p[case.rng.choice(['states', 'actions', 'observations'])]
    if case.rng.random() < .1:
        p['R'] = p['R'].astype(int)
        p['start'] = (np.arange(p['O'].shape[1]) == 0).astype(int)
    if case.rng.random() < .1 and p['O'].shape[1] > 1:
        # integer names, in another order than the indices (a single integer would read as a count)
        n = p['O'].shape[1]
        p['states'] = [int(x) for x in case.np.permutation(n) + 100]
    finish(case, p, case.rng.random() < .3)


def case_large(case):
    i = case.index % 4
    r = case.np
    if i == 0:
        p = gen.pomdp_parts(case, s=r.randint(1, 3), a=r.randint(1, 3), o=r.randint(200, 900),
                            style=case.rng.choice(['uniform', 'dense', None]))
    elif i == 1:
        p = gen.pomdp_parts(case, s=r.randint(60, 130), a=1, o=1, style=case.rng.choice(['uniform', 'dense']))
    elif i == 2:
        p = gen.pomdp_parts(case, s=2, a=r.randint(20, 60), o=3)
    else:
        p = gen.pomdp_parts(case, s=2, a=1, o=r.randint(100, 900), style='uniform')
        for idx in np.ndindex(1, 2):
            w = 10. ** (-r.uniform(0, 7, size=p['O'].shape[-1]))
            p['O'][idx] = w / w.sum()
    case.event('large')
    finish(case, p, False)


def run(ctx):
    ctx.cases('small', ctx.n(800, 12000), case_small)
    ctx.cases('large', ctx.n(48, 800), case_large)
    ctx.require('files', 100)
    ctx.require('large', 10)
