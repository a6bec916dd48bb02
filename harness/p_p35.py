"""Resistant averages and the difference of angles."""
import math

from api import again, harness
import qc

BOUNDS = "1 to 5 values in any order (thorough: 6), 6 to 12 different values in ascending, descending and one mixed order; trimming by "\
         "nothing or by one part in 3 to 12; angles from 0 to a full turn"
ASSUMPTIONS = ["sums of reals: rounding is not modelled"]


ORDERS = [{"n": n, "order": o} for n in (6, 7, 8, 9, 12) for o in ("up", "down", "mixed")]


def values(c, p):
    """values in their order, and sorted"""
    n = p["n"]
    xs = [c.float("x%d" % i, -100.0, 100.0) for i in range(n)]
    if "order" not in p:
        return xs, sorted(xs)
    for a, b in zip(xs, xs[1:]):
        c.assume(a < b)
    if p["order"] == "up":
        return list(xs), xs
    if p["order"] == "down":
        return xs[::-1], xs
    return xs[1::2] + xs[0::2][::-1], xs


SMALL = [{"n": i} for i in range(1, 5)]


@harness(quick=SMALL + [{"n": 5}] + ORDERS, thorough=SMALL + [{"n": 5}, {"n": 6}] + ORDERS, time=150)
def winsorised(c, p):
    got, s = values(c, p)
    n = len(s)
    m = qc.winsorised_mean(list(got))
    k = n // 4
    want = sum(s[k:n - k]) + (s[k] + s[n - 1 - k]) * k
    c.require(c.close(m * n, want), "the outer quarters count as the innermost of them")
    c.require(c.close(m, s[k]) | (m > s[k]), "not below the lower quartile")
    c.require(c.close(m, s[n - 1 - k]) | (m < s[n - 1 - k]), "not above the upper quartile")


@harness(quick=[dict(q, trim=t) for q in SMALL + [{"n": 5, "order": "mixed"}] + ORDERS for t in (0, 3, 4, 10)],
         thorough=[dict(q, trim=t) for q in SMALL + [{"n": 5}] + ORDERS for t in (0,) + tuple(range(3, 13))], time=150)
def trimmed(c, p):
    got, s = values(c, p)
    n, t = len(s), p["trim"]
    m = qc.trimmed_mean(list(got), t)
    k = n // t if t else 0
    keep = s[k:n - k]
    c.require(c.close(m * len(keep), sum(keep)), "the mean of what is left when that part is cut off both ends")


@harness(quick=[{"n": i} for i in range(0, 5)], thorough=[{"n": i} for i in range(0, 8)], time=60)
def missing(c, p):
    xs = [c.opt("x%d" % i, lambda k: c.float(k, -100.0, 100.0)) for i in range(p["n"])]
    have = [x for x in xs if x is not None]
    m = qc.missing_mean(xs)
    if not have:
        c.require(m is None, "nothing to average")
    else:
        c.require(m is not None and c.close(m * len(have), sum(have)), "the mean of those that are there")


@harness(time=60)
def angles(c, p):
    a, b = c.float("a", 0.0, 6.283), c.float("b", 0.0, 6.283)
    d = qc.angle_diff(a, b)
    full = 2 * math.pi
    way = abs(a - b)
    c.require(d >= 0 and d <= math.pi, "at most half a turn")
    c.require(c.close(d, way) or c.close(d, full - way), "one of the two ways round")
    c.require(d <= way + 1e-9 and d <= full - way + 1e-9, "the shorter way")
    c.require(c.close(qc.angle_diff(b, a), d), "the same from both sides")


again("winsorised", quick=[{"n": 3}], time=60)
again("missing", quick=[{"n": 2}], time=60)
again("angles", quick=[{}], time=60)
