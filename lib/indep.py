"""Oracles on sequences of daily decisions: each decision is a coin of its own.

A series is a list of (x, k, p): on that day x of k candidates said yes, each with chance p.  If the decisions follow
that chance and do not depend on each other, the sums below have mean zero and the given variance conditional on the
days before (they are martingales), so limits of 6 to 7 standard deviations hold for every correct implementation,
however it draws its random numbers.
"""
import math

from vlib import expect


def _v(k, p):
    return k * p * (1.0 - p)


def one(series, what):
    """The chance is right, and candidates of one day, and successive days, do not influence each other."""
    d = [x - k * p for x, k, p in series]
    v = [_v(k, p) for x, k, p in series]
    for x, k, p in series:
        if p <= 0.0 or p >= 1.0:
            expect(x == k * p, lambda: "%s: %d of %d, although the chance is %r" % (what, x, k, p))
    tot = sum(v)
    if tot <= 0:
        return
    n = sum(k for _, k, _ in series)
    yes = sum(x for x, _, _ in series)
    expect(abs(sum(d)) <= 6 * math.sqrt(tot) + 3,
           lambda: "%s: %d of %d over %d days, expected %.1f" % (what, yes, n, len(series), yes - sum(d)))
    if len(series) < 60 or tot < 100:
        return
    q = sum(x * x for x in d)
    var = sum(vi * (1 + 3 * (k - 2) * p * (1 - p)) - vi * vi for vi, (x, k, p) in zip(v, series))
    expect(abs(q - tot) <= 7 * math.sqrt(var) + 0.1 * tot,
           lambda: "%s: the daily numbers vary %.2f times as much as those of independent decisions would "
           "(first days, yes/candidates: %r)" % (what, q / tot, [(x, k) for x, k, _ in series[:12]]))
    lag = sum(a * b for a, b in zip(d, d[1:]))
    var = sum(a * b for a, b in zip(v, v[1:]))
    expect(abs(lag) <= 7 * math.sqrt(var) + 0.1 * tot,
           lambda: "%s: successive days are correlated (coefficient %.2f)" % (what, lag / tot))


def two(a, b, what):
    """Two series of the same days do not influence each other."""
    va = [_v(k, p) for _, k, p in a]
    vb = [_v(k, p) for _, k, p in b]
    var = sum(x * y for x, y in zip(va, vb))
    if len(a) < 60 or var <= 0 or min(sum(va), sum(vb)) < 100:
        return
    s = sum((x - k * p) * (y - m * q) for (x, k, p), (y, m, q) in zip(a, b))
    scale = math.sqrt(sum(va) * sum(vb))
    expect(abs(s) <= 7 * math.sqrt(var) + 0.1 * scale,
           lambda: "%s: correlated on the same day (coefficient %.2f)" % (what, s / scale))


def cov(xs, mx, vx, ys, my, vy, what):
    """Two series of the same days with given daily means and variances are uncorrelated."""
    n = len(xs)
    if n < 120:
        return
    s = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
    scale = n * math.sqrt(vx * vy)
    expect(abs(s) <= 7 * math.sqrt(n * vx * vy) + 0.1 * scale,
           lambda: "%s: correlated (coefficient %.2f over %d days)" % (what, s / scale, n))
