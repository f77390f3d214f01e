"""Statistics of a list of plain values, computed from their definitions in exact arithmetic."""
from fractions import Fraction
import math

from mc.model import missing

NAN = float('nan')


class NoResult(Exception):
    """The definition has no value here; the function has to refuse."""


def known(vals):
    return [v for v in vals if not missing(v)]


def exact(vals):
    """The known values as fractions, or None if some are not numbers."""
    out = []
    for v in known(vals):
        if isinstance(v, str):
            return None
        out.append(Fraction(v))
    return out


def numeric(f):
    def g(vals):
        x = exact(vals)
        if not x:
            return NAN
        return f(x)
    return g


def maximum(x):
    return max(x)


def mean(x):
    return sum(x) / Fraction(len(x))


def percentile(x, q):
    s = sorted(x)
    pos = Fraction(q) * (len(s) - 1)
    lo = pos.numerator // pos.denominator
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (pos - lo)


def median(x):
    return percentile(x, Fraction(1, 2))


def pvar(x):
    m = mean(x)
    return sum((v - m) ** 2 for v in x) / Fraction(len(x))


def svar(x):
    if len(x) < 2:
        return NAN
    m = mean(x)
    return sum((v - m) ** 2 for v in x) / Fraction(len(x) - 1)


def root(f):
    return lambda x: NAN if f(x) != f(x) else math.sqrt(f(x))


def mad(x):
    m = median(x)
    return median([abs(v - m) for v in x])


def mode(vals):
    k = known(vals)
    if not k:
        raise NoResult
    counts = {}
    for v in k:
        counts[v] = counts.get(v, 0) + 1
    best = max(counts.values())
    modes = sorted(v for v, c in counts.items() if c == best)
    return modes[(len(modes) - 1) // 2]


def quartiles(vals):
    x = exact(vals)
    if not x:
        return (NAN, NAN, NAN)
    return tuple(percentile(x, Fraction(q, 4)) for q in (1, 2, 3))


def total(vals):
    x = exact(vals)
    return NAN if x is None else sum(x, Fraction(0))


STATS = {
    'maximum': numeric(max), 'minimum': numeric(min), 'mean': numeric(mean), 'median': numeric(median), 'variance': numeric(svar), 'populationVariance': numeric(pvar),
    'standardDeviation': numeric(root(svar)), 'populationStandardDeviation': numeric(root(pvar)), 'medianAbsoluteDeviation': numeric(mad), 'mode': mode,
    'quartiles': quartiles, 'sum': total, 'count': lambda v: len(known(v)), 'uniqueCount': lambda v: len(set(known(v))),
    'proportionMissing': lambda v: Fraction(len(v) - len(known(v)), len(v)), 'proportionZero': lambda v: Fraction(sum(1 for x in v if not isinstance(x, str) and x == 0), len(v)),
}


def covariance(a, b, sample=True):
    """of the pairs in which both are known"""
    p = [(Fraction(x), Fraction(y)) for x, y in zip(a, b) if not missing(x) and not missing(y)]
    n = len(p)
    if n == 0 or sample and n == 1:
        return NAN
    mx, my = sum(x for x, y in p) / n, sum(y for x, y in p) / n
    return sum((x - mx) * (y - my) for x, y in p) / Fraction(n - 1 if sample else n)


def correlation(a, b):
    p = [(x, y) for x, y in zip(a, b) if not missing(x) and not missing(y)]
    if not p:
        return NAN
    vx = covariance([x for x, y in p], [x for x, y in p], False)
    vy = covariance([y for x, y in p], [y for x, y in p], False)
    if vx == 0 or vy == 0:
        return NAN
    return float(covariance(a, b, False)) / math.sqrt(vx * vy)


def dot(a, b):
    if any(missing(x) for x in list(a) + list(b)):
        return NAN
    return sum(Fraction(x) * Fraction(y) for x, y in zip(a, b))
