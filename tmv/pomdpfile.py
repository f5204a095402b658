"""Independent reader of the POMDP file format.

http://www.pomdp.org/code/pomdp-file-spec.html
Numbers are kept as fractions, so that sums are exact."""
import itertools
import re
from fractions import Fraction

import numpy as np


class FormatError(ValueError):
    pass


HEADS = ('discount', 'values', 'states', 'actions', 'observations', 'start', 'T', 'O', 'R')


def num(t):
    try:
        return Fraction(t)
    except (ValueError, ZeroDivisionError):
        raise FormatError('not a number: ' + t)


def parse(text):
    """Returns a dictionary: discount, values, states, actions, observations (lists of names, or counts),
    start (list), T[a][s][s'], O[a][s'][o], R[a][s][s'][o]."""
    tokens = []
    for line in text.split('\n'):
        tokens.extend(re.findall(r':|[^\s:]+', line.split('#')[0]))
    heads = [i for i, t in enumerate(tokens) if t in HEADS and (
        tokens[i + 1:i + 2] == [':'] or
        t == 'start' and tokens[i + 1:i + 2] in (['include'], ['exclude']) and tokens[i + 2:i + 3] == [':'])
        and tokens[i - 1:i] != [':']]
    if not tokens or heads[:1] != [0]:
        raise FormatError('unexpected ' + ' '.join(tokens[:1]))
    d, tables = {}, {}

    def size(kind):
        return d[kind] if isinstance(d[kind], int) else len(d[kind])

    def indices(kind, t):
        """Those denoted by a name, a number or *."""
        if t == '*':
            return range(size(kind))
        if not isinstance(d[kind], int) and t in d[kind]:
            return [d[kind].index(t)]
        if not re.fullmatch(r'\d+', t) or int(t) >= size(kind):
            raise FormatError('unknown in {}: {}'.format(kind, t))
        return [int(t)]

    def fill(h, kinds, toks):
        """One definition: as many indices as given, then the numbers of the other dimensions."""
        where, rest = [indices(kinds[0], toks[0])], toks[1:]
        while rest[:1] == [':']:
            if len(where) == len(kinds) or len(rest) < 2:
                raise FormatError(h + ': too many indices')
            where.append(indices(kinds[len(where)], rest[1]))
            rest = rest[2:]
        shape = [size(k) for k in kinds[len(where):]]
        n = int(np.prod(shape, dtype=int))
        if rest == ['uniform'] and h != 'R' and shape:
            values = [Fraction(1, shape[-1])] * n
        elif rest == ['identity'] and h == 'T' and len(shape) == 2:
            values = [Fraction(int(i == j)) for i in range(shape[0]) for j in range(shape[1])]
        else:
            values = [num(t) for t in rest]
        if len(values) != n:
            raise FormatError('{}: {} numbers instead of {}'.format(h, len(values), 'x'.join(map(str, shape)) or 1))
        for w in itertools.product(*where):
            for k, v in zip(itertools.product(*map(range, shape)), values):
                tables[h][w + k] = v

    def start(include, toks):
        n = size('states')
        if include is not None:
            named = {i for t in toks for i in indices('states', t)}
            named = named if include else set(range(n)) - named
            if not named:
                raise FormatError('no start')
            return [Fraction(1, len(named)) if i in named else Fraction(0) for i in range(n)]
        if toks == ['uniform']:
            return [Fraction(1, n)] * n
        if len(toks) == 1 and (n > 1 or not re.fullmatch(r'[\d.]+', toks[0])):
            i, = indices('states', toks[0])
            return [Fraction(int(j == i)) for j in range(n)]
        return [num(t) for t in toks]

    kinds = {'T': ('actions', 'states', 'states'), 'O': ('actions', 'states', 'observations'),
             'R': ('actions', 'states', 'states', 'observations')}
    for i, e in zip(heads, heads[1:] + [len(tokens)]):
        h, toks = tokens[i], tokens[i + 1:e]
        include = None
        if toks[0] != ':':
            include, toks = toks[0] == 'include', toks[1:]
        toks = toks[1:]
        if h in kinds:
            if h not in tables:
                tables[h] = {} if h != 'R' else dict.fromkeys(itertools.product(*[range(size(k)) for k in kinds[h]]),
                                                              Fraction(0))
            fill(h, kinds[h], toks)
            continue
        if h in d:
            raise FormatError(h + ' given twice')
        if not toks:
            raise FormatError(h + ' is empty')
        if h == 'discount':
            d[h] = float(toks[0])
        elif h == 'values':
            d[h] = toks[0]
        elif h == 'start':
            d[h] = start(include, toks)
        elif len(toks) == 1 and re.fullmatch(r'\d+', toks[0]):
            d[h] = int(toks[0])
        else:
            d[h] = toks
    d.setdefault('start', [Fraction(1, size('states'))] * size('states'))
    if len(d['start']) != size('states'):
        raise FormatError('start has {} entries'.format(len(d['start'])))
    for h in kinds:
        def nested(k, ks):
            if not ks:
                return tables[h][k]
            return [nested(k + (i,), ks[1:]) for i in range(size(ks[0]))]
        try:
            d[h] = nested((), kinds[h])
        except KeyError as e:
            raise FormatError('{} not given for {}'.format(h, e))
    return d


def compare(case, text, parts, what='solver file', cost=False):
    """The text must denote the model given by its parts (see gen.pomdp_parts)."""
    try:
        d = parse(text)
    except (ValueError, IndexError, KeyError) as e:
        case.fail('{}: not readable: {!r}'.format(what, e))
    a, s, o = parts['O'].shape
    for k, n in (('states', s), ('actions', a), ('observations', o)):
        exp = n if parts.get(k) is None else [str(x) for x in parts[k]]
        got = d[k]
        if got != exp:
            # n names that are the numbers 0..n-1 denote the same as the count n
            norm = lambda x: [str(i) for i in range(x)] if isinstance(x, int) else x
            case.equal(norm(got), norm(exp), what + ': ' + k)
    case.equal(d['discount'], float(parts['discount']), what + ': discount')
    case.check(d['values'] in ('reward', 'cost'), '{}: values {}', what, d['values'])
    def dist(row, exp, name):
        case.check(all(0 <= x <= 1 for x in row), '{}: {} has an entry out of [0, 1]: {}', what, name, row[:8])
        case.check(sum(row) == 1, '{}: {} sums to {}', what, name, float(sum(row)))
        err = np.abs(np.array([float(x) for x in row]) - exp)
        case.check((err <= 1.01e-5).all(), '{}: {} is off by {}', what, name, err.max())

    dist(d['start'], parts['start'], 'start')
    for i in range(a):
        for j in range(s):
            dist(d['T'][i][j], parts['T'][i, j], 'T {} {}'.format(i, j))
            dist(d['O'][i][j], parts['O'][i, j], 'O {} {}'.format(i, j))
    R = np.array([[[[float(x) for x in r] for r in b] for b in aa] for aa in d['R']]).reshape(a, s, s, o)
    exp = parts['R'] * (-1 if cost else 1) * (-1 if d['values'] == 'cost' else 1)
    err = np.abs(R - exp) - 1e-9 * np.abs(exp)
    case.check((err <= 1.01e-5).all(), '{}: R is off by {}', what, err.max())
