"""Simple value checks against their definitions."""
from api import harness
import qc

BOUNDS = "values, climatologies, standard deviations and limits: every real number in [-1e6, 1e6] (decimal constants "\
         "exact) and, for the comparison kernels, every finite double in [-1e6, 1e6]; any of them missing"
ASSUMPTIONS = ["mode real: floats are read as the decimals they were written as, rounding of a - b is not modelled; "
               "mode fp: IEEE double with rounding"]
B = 1000000.0
BOTH = [{"mode": "real"}, {"mode": "fp"}]


def val(c, n):
    return c.opt(n, lambda m: c.float(m, -B, B))


@harness(quick=[{}])
def presence(c, p):
    x = val(c, "x")
    r = qc.value_check(x)
    n = qc.no_normal_check(x)
    want = 1 if x is None else 0
    c.observe("r", [r, n])
    c.require(r == want, "value_check fails exactly the missing value")
    c.require(n == want, "no_normal_check fails exactly the missing normal")


@harness(quick=BOTH)
def hard_limits(c, p):
    lo, hi = c.float("lo", -B, B), c.float("hi", -B, B)
    c.assume(hi > lo)
    x = val(c, "x")
    for kind in (0, 1):
        r = qc.hard_limit(x, [lo, hi] if kind else (lo, hi))
        if x is None:
            c.require(r == 1, "hard_limit fails the missing value")
        else:
            c.require((r == 0) == (lo <= x and x <= hi), "hard_limit passes exactly the closed interval")
            c.require(r == 0 or r == 1, "hard_limit gives 0 or 1")
    c.observe("r", r)


@harness(quick=BOTH)
def climatology(c, p):
    x, cl = val(c, "x"), val(c, "clim")
    lim = c.opt("limit", lambda m: c.float(m, 0.0, B))
    r = qc.climatology_check(x, cl, lim)
    c.observe("r", r)
    c.require(r == 0 or r == 1, "0 or 1")
    if x is None or cl is None or lim is None:
        c.require(r == 1, "climatology_check fails on anything missing")
    else:
        c.require((r == 1) == (abs(x - cl) > lim), "climatology_check fails exactly outside the limit")
    if x is not None and cl is not None:
        c.require(qc.climatology_check(x, cl) == qc.climatology_check(x, cl, 8.0), "the default limit is 8")


@harness(quick=[{"mode": "real"}], nonlinear=True)
def climatology_stdev(c, p):
    x, cl = val(c, "x"), val(c, "clim")
    sd = c.opt("sd", lambda m: c.float(m, -10.0, B))
    lo, hi = c.float("lo", 0.0, 1000.0), c.float("hi", 0.0, 1000.0)
    c.assume(lo > 0.0)
    c.assume(hi > lo)
    lim = c.float("limit", 0.0, 100.0)
    c.assume(lim > 0.0)
    r = qc.climatology_plus_stdev_check(x, cl, sd, [lo, hi], lim)
    c.observe("r", r)
    if x is None or cl is None or sd is None:
        c.require(r == 1, "climatology_plus_stdev_check fails on anything missing")
    else:
        s = lo if sd < lo else (hi if sd > hi else sd)
        c.require((r == 1) == (abs(x - cl) > lim * s), "fails exactly beyond limit times the clamped stdev")
        c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=[{"mode": "real"}], nonlinear=True)
def climatology_lowbar(c, p):
    x, cl = val(c, "x"), val(c, "clim")
    sd = c.opt("sd", lambda m: c.float(m, 0.0, B))
    if sd is not None:
        c.assume(sd > 0.0)
    lim, bar = c.float("limit", 0.0, 100.0), c.float("lowbar", 0.0, 100.0)
    c.assume(lim > 0.0)
    r = qc.climatology_plus_stdev_with_lowbar(x, cl, sd, lim, bar)
    c.observe("r", r)
    if x is None or cl is None or sd is None:
        c.require(r == 1, "climatology_plus_stdev_with_lowbar fails on anything missing")
    else:
        d = abs(x - cl)
        c.require((r == 1) == (d > lim * sd and d > bar), "fails exactly beyond both the stdev limit and the low bar")
        c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=BOTH)
def supersaturation(c, p):
    td, t = val(c, "td"), val(c, "t")
    r = qc.supersat_check(td, t)
    c.observe("r", r)
    if td is None or t is None:
        c.require(r == 1, "supersat_check fails on anything missing")
    else:
        c.require((r == 1) == (td > t), "supersat_check fails exactly when the dew point exceeds the air temperature")
        c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=BOTH)
def freezing(c, p):
    x = val(c, "x")
    if c.flag("defaults"):
        r = qc.sst_freeze_check(x)
        u, f, n = 0.0, -1.8, 2.0
    else:
        u, f, n = c.float("u", 0.0, 10.0), c.float("f", -5.0, 5.0), c.float("n", 0.0, 10.0)
        r = qc.sst_freeze_check(x, u, f, n)
    c.observe("r", r)
    if x is None:
        c.require(r == 0, "a missing SST is not frozen")
    else:
        c.require((r == 1) == (x < f - n * u), "frozen exactly below the freezing point less n sigma")
        c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=BOTH)
def wind(c, p):
    w = val(c, "w")
    d = c.opt("d", lambda m: c.int(m, 0, 400))
    v = c.float("limit", 0.0, 100.0)
    r = qc.wind_consistency(w, d, v)
    c.observe("r", r)
    calm = d is not None and d == 361
    variable = d is not None and d == 362
    if w is None:
        c.require((r == 0) == (not calm), "a missing wind speed only contradicts calm")
    else:
        c.require((r == 1) == ((calm and w != 0) or (variable and w > v)),
                  "fails exactly calm with wind, or variable with more than light wind")
        c.require(r == 0 or r == 1, "0 or 1")
