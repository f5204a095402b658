"""Statistical oracle with a negligible false alarm rate.

For a binomial count k out of n with success probability p, P(deviation at least as large) <= 2 exp(-n KL(k/n || p))
(Chernoff). A violation is only reported beyond LIMIT nats (1e-14) plus a union bound over the outcomes."""
import math

from .core import Violation

LIMIT = 32.


def kl(q, p):
    if p <= 0.:
        return math.inf if q > 0 else 0.
    if p >= 1.:
        return math.inf if q < 1 else 0.
    r = 0.
    if q > 0:
        r += q * math.log(q / p)
    if q < 1:
        r += (1 - q) * math.log((1 - q) / (1 - p))
    return r


def frequencies(counts, probs, n, what):
    """counts, probs: dictionaries of outcomes. Outcomes absent from probs are impossible."""
    for x in set(counts) | set(probs):
        k, p = counts.get(x, 0), probs.get(x, 0.)
        if k and p <= 0:
            raise Violation('{}: outcome {!r} was produced but has probability zero'.format(what, x))
        if n * kl(k / n, min(p, 1.)) > LIMIT + math.log(2 * (len(probs) + 1)):
            raise Violation('{}: outcome {!r} was produced {} times out of {}, its probability is {:.6g}'.format(
                what, x, k, n, p))
