"""Repeated and rounded values along a voyage."""
from api import again, harness
import Extended_IMMA as ex
import rep as R

BOUNDS = "voyages of 0..5 reports (thorough: 6), every real value or missing, every threshold in [0, 1] and minimum count "\
         "0..6, flags set before in any way"
ASSUMPTIONS = ["values are exact reals: the text of a value (which the code compares) is the same exactly for equal values"]


def voyage(c, n, var, flag):
    v, vals = ex.Voyage(), []
    for i in range(n):
        r = R.report(ID="SHIP", UID=str(i))
        x = None
        if not c.flag("gone%d" % i):
            x = c.float("v%d" % i, -50.0, 50.0)
            r.setvar(var, x)
        r.set_qc(var, flag, (i * 3) % 10)
        r.set_qc("POS", "trk", 1)
        vals.append(x)
        v.reps.append(r)
    return v, vals


NQ = [{"n": i, "var": "SST"} for i in range(5)] + [{"n": 3, "var": k} for k in ("AT", "AT2", "DPT")]
NT = NQ + [{"n": 5, "var": "SST", "time": 900}]


def settings(c):
    return {"threshold": c.float("threshold", 0.0, 1.0), "min_count": c.int("min_count", 0, 6)}


@harness(quick=NQ + [{"n": 3, "var": "SLP"}], thorough=NT + [{"n": 3, "var": "SLP"}], time=150)
def repeated(c, p):
    var = p["var"]
    v, vals = voyage(c, p["n"], var, "rep")
    q = c.shared("settings", lambda: settings(c))
    v.find_repeated_values(q, intype=var)
    c.require(len(v) == p["n"], "no report is lost")
    have = [x for x in vals if x is not None]
    for i, x in enumerate(vals):
        got = v.get_qc(i, var, "rep")
        if x is None or len(have) <= q["min_count"]:
            c.require(got == 0, "missing values and short voyages are never flagged")
        else:
            k = sum([1 for y in have if y == x])
            c.require((got == 1) == (k / (1.0 * len(have)) > q["threshold"]), "flagged exactly when more than the threshold "
                      "fraction of the values present equal it")
            c.require(got == 0 or got == 1, "0 or 1")
        c.require(v.get_qc(i, "POS", "trk") == 1, "other flags stay")


@harness(quick=NQ, thorough=NT, time=150)
def rounded(c, p):
    var = p["var"]
    v, vals = voyage(c, p["n"], var, "round")
    q = c.shared("settings", lambda: settings(c))
    v.find_multiple_rounded_values(q, intype=var)
    c.require(len(v) == p["n"], "no report is lost")
    have = [x for x in vals if x is not None]
    whole = [x for x in have if x == x // 1]
    for i, x in enumerate(vals):
        got = v.get_qc(i, var, "round")
        if x is None or len(have) <= q["min_count"]:
            c.require(got == 0, "missing values and short voyages are never flagged")
        else:
            bad = x == x // 1 and len(whole) / (1.0 * len(have)) >= q["threshold"]
            c.require((got == 1) == bool(bad), "flagged exactly the whole numbers, when they reach the threshold fraction")
            c.require(got == 0 or got == 1, "0 or 1")
        c.require(v.get_qc(i, "POS", "trk") == 1, "other flags stay")


again("repeated", quick=[{"n": 2, "var": "SST"}, {"n": 3, "var": "SST", "then": {"n": 2, "var": "AT"}}], time=100)
again("rounded", quick=[{"n": 2, "var": "DPT"}], time=100)
