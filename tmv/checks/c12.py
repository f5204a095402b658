"""C12: supportive states encode and decode without interference."""
import itertools

import numpy as np

from .. import gen
from .c11 import random_process

PROPERTY = 'C12'
RULE = ('exhaustive decoding of all states of small random layouts, and random sequences of feature changes on larger '
        'ones, against a shadow description; marginals of random (sparse, tiny, dense) beliefs against direct sums. '
        'Non-trivial: distinct (layout, operation sequence or belief).')

ASSUMPTIONS = ['belief_preferences lists the preferences from the last one to the first one (as in the repository\'s '
               'test of it)']


def layout(case, max_bits):
    r = case.rng
    while True:
        n = (r.randint(2, 9), r.randint(0, 3), r.randint(0, 2), r.randint(0, 6))
        if sum(n[1:]) <= max_bits:
            return n


def make(case, n, s=None):
    from task_models.supportive import _SupportivePOMDPState
    return _SupportivePOMDPState(*n) if s is None else _SupportivePOMDPState(*n, s=s)


def read(st, n):
    return (int(st.htm), tuple(int(st.has_preference(i)) for i in range(n[1])),
            tuple(int(st.has_body_feature(i)) for i in range(n[2])), tuple(int(st.has_object(i)) for i in range(n[3])))


def sizes(case, st, n, what):
    case.equal((st.n_htm, st.n_preferences, st.n_body_features, st.n_objects), n, what + ': layout')
    case.equal(st.n_states, n[0] * 2 ** sum(n[1:]), what + ': number of states')


def write(st, d, order):
    h, p, b, o = d
    ops = [('htm', 0, h)] + [('p', i, x) for i, x in enumerate(p)] + [('b', i, x) for i, x in enumerate(b)] + \
        [('o', i, x) for i, x in enumerate(o)]
    order.shuffle(ops)
    for k, i, x in ops:
        apply(st, k, i, x)


def apply(st, k, i, x):
    if k == 'htm':
        st.htm = x
    elif k == 'p':
        st.set_preference(i, x)
    elif k == 'b':
        st.set_body_feature(i, x)
    else:
        st.set_object(i, x)


def changed(d, k, i, x):
    d = [d[0], list(d[1]), list(d[2]), list(d[3])]
    if k == 'htm':
        d[0] = x
    else:
        d['htm p b o'.split().index(k)][i] = x
    return (d[0], tuple(d[1]), tuple(d[2]), tuple(d[3]))


def all_descriptions(n):
    for h in range(n[0]):
        for bits in itertools.product([0, 1], repeat=sum(n[1:])):
            yield (h, bits[:n[1]], bits[n[1]:n[1] + n[2]], bits[n[1] + n[2]:])


def case_exhaustive(case):
    n = layout(case, 6)
    total = n[0] * 2 ** sum(n[1:])
    seen = {}
    for s in range(total):
        st = make(case, n, s)
        case.equal(st.to_int(), s, 'number of state')
        d = read(st, n)
        case.check(d not in seen, 'states {} and {} have the same description {}', seen.get(d), s, d)
        seen[d] = s
        case.equal(bool(st.is_final()), d[0] == n[0] - 1, 'finality of step {} of {}'.format(d[0], n[0]))
        case.event('decoded')
    case.check(set(seen) == set(all_descriptions(n)), 'descriptions reached are not those of the model')
    for d in case.rng.sample(sorted(seen), min(len(seen), 60)):
        st = make(case, n)
        write(st, d, case.rng)
        case.equal(st.to_int(), seen[d], 'number of {}'.format(d))
    sizes(case, make(case, n), n, 'state')
    case.key('all', n)
    case.note(layout=n, states=total)


def case_sequence(case):
    n = layout(case, 11)
    if case.index % 4 == 0:     # real tasks have many objects: numbers need not fit in a machine word
        r = case.rng
        n = (r.choice([3, 40, 300, 5000]), r.randint(0, 3), r.randint(0, 2), r.choice([12, 20, 28, 31, 40, 60, 70]))
        case.event('large-layouts')
    st = make(case, n)
    d = (0, (0,) * n[1], (0,) * n[2], (0,) * n[3])
    ops = []
    others = []
    for _ in range(80):
        kinds = ['htm'] + (['p'] if n[1] else []) + (['b'] if n[2] else []) + (['o'] if n[3] else [])
        k = case.rng.choice(kinds)
        i = 0 if k == 'htm' else case.rng.randrange(n['htm p b o'.split().index(k)])
        x = case.rng.randrange(n[0]) if k == 'htm' else case.rng.randint(0, 1)
        apply(st, k, *((np.int64(i), np.int64(x)) if case.rng.random() < .2 else (i, x)))
        d = changed(d, k, i, x)
        ops.append((k, i, x))
        case.equal(read(st, n), d, 'state after {}'.format(ops[-3:]))
        case.equal(bool(st.is_final()), d[0] == n[0] - 1, 'finality')
        case.equal(read(make(case, n, st.to_int()), n), d, 'state decoded from its number')
        case.event('changes')
        if case.rng.random() < .15:
            cp = st.copy()
            case.equal(read(cp, n), d, 'copy')
            case.equal(cp.to_int(), st.to_int(), 'number of a copy')
            case.equal(bool(cp.is_final()), d[0] == n[0] - 1, 'finality of a copy')
            sizes(case, cp, n, 'copy')
            others.append((cp, d))
            if case.rng.random() < .5:      # go on with the copy
                others[-1] = (st, d)
                st = cp
            case.event('copies')
    for o, od in others:
        case.equal(read(o, n), od, 'a copy (or its original) after later changes')
    case.key('sequence', n, ops)
    case.note(layout=n, first=ops[:10])


def case_belief(case):
    n = layout(case, 8)
    total = n[0] * 2 ** sum(n[1:])
    style = case.rng.choice(['dense', 'tiny', 'det', 'sparse', 'uniform'])
    b = gen.prob_row(case.np, total, style)
    if case.rng.random() < .3:
        b = case.np.randint(0, 5, size=total) / 16.     # exact and not normalised: sums stay sums
    before = b.copy()
    st = make(case, n, case.rng.randrange(total))
    q = [0.] * n[0]
    p = [0.] * n[1]
    for s in range(total):
        h, prefs, _, _ = read(make(case, n, s), n)
        q[h] += float(b[s])
        for i, x in enumerate(prefs):
            p[i] += float(b[s]) * x
    case.close(list(st.belief_quotient(b)), q, 'marginal over steps of layout {}'.format(n))
    # listed from the last preference to the first, as the existing test has it
    case.close(list(st.belief_preferences(b)), p[::-1], 'marginal of preferences of layout {}'.format(n))
    case.check((b == before).all(), 'the belief was changed')
    case.event('marginals')
    if n[1] > 1:
        case.event('marginals-several')
    case.key('belief', n, b.tobytes())
    case.note(layout=n, style=style)


def case_model(case):
    """The same through a model."""
    model, proc = random_process(case, max_leaves=4, max_objects=3, n_prefs=case.rng.randint(1, 2))
    n = (model.n_htm_states, len(model.preferences), 1, len(model.objects))
    sizes(case, model._int_to_state(), n, 'state of a model')
    case.equal(model.n_states, n[0] * 2 ** sum(n[1:]), 'states of a model')
    seen = set()
    for s in range(model.n_states):
        st = model._int_to_state(s)
        seen.add(read(st, n))
        case.equal(bool(model.is_final(s)), st.htm == n[0] - 1, 'is_final')
        case.equal(st.to_int(), s, 'number')
    case.check(seen == set(all_descriptions(n)), 'descriptions of the states of a model')
    names = list(model.states)
    case.equal((len(names), len(set(names))), (model.n_states, model.n_states), 'state names')
    case.equal(len(model.features), 1 + sum(n[1:]), 'features')
    for _ in range(10):     # random changes only touch what they say, and certain ones change everything
        s = case.rng.randrange(model.n_states)
        for what, k in (('random_object_changes', 3), ('random_preference_changes', 1)):
            for p in (0., 1., .5):
                st = model._int_to_state(s)
                d = read(st, n)
                getattr(st, what)(p)
                new = read(st, n)
                for j in range(4):
                    if j != k or p == 0.:
                        case.equal(new[j], d[j], '{}({}) of a state'.format(what, p))
                    elif p == 1.:
                        case.equal(new[j], tuple(1 - x for x in d[j]), '{}(1.) of a state'.format(what))
    case.event('models')
    case.key('model', n)


def run(ctx):
    ctx.cases('exhaustive', ctx.n(960, 3840), case_exhaustive)
    ctx.cases('sequence', ctx.n(3600, 14400), case_sequence)
    ctx.cases('belief', ctx.n(2400, 9600), case_belief)
    ctx.cases('model', ctx.n(720, 2880), case_model)
    for k in ('decoded', 'changes', 'copies', 'marginals', 'marginals-several', 'models', 'large-layouts'):
        ctx.require(k, 40)
