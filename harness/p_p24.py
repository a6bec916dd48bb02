"""Bad beginnings and ends of drifter records."""
import math

from api import harness
import Extended_IMMA as ex
import trackqc as tqc
from drifter import record

BOUNDS = "records of 0..6 reports (thorough: 7), long windows of 1, 3 and 5 and short windows of 1..3 reports, any anomalies; any mean "\
         "and spread of a window; background variances of two values, one of them above the limit"
ASSUMPTIONS = ["mean and spread of a window are arbitrary functions of its values in the logic of the long check; they are the "
               "real ones in jobs of their own", "background, ice and variance are within their valid ranges when present"]

LIM = 0.3


def expected(n, use, an, var, par, stats):
    """the indices flagged at the beginning and at the end"""
    at = [i for i in range(n) if use[i]]
    m, lw, sw = len(at), par["long"], par["short"]
    unsure = [var[i] > LIM for i in at]

    def scan(order, width, bad):
        """how many windows fail in a row, from the start of order"""
        k = 0
        while k + width <= len(order):
            w = order[k:k + width]
            if any(unsure[j] for j in w) or not bad(w):
                break
            k += 1
        return k

    def long_bad(w):
        avg, spread = stats([an[at[j]] for j in w])
        errs = [math.sqrt(var[at[j]]) for j in w]
        mean, ms = sum(errs) / len(errs), sum(e * e for e in errs) / len(errs)
        return abs(avg) > par["long_n"] * math.sqrt(par["inter"] ** 2 + mean ** 2) or \
            spread > math.sqrt(par["intra"] ** 2 + ms)

    def short_bad(w):
        k = 0
        for j in w:
            lim = par["short_n"] * math.sqrt(math.sqrt(var[at[j]]) ** 2 + par["inter"] ** 2 + par["intra"] ** 2)
            if an[at[j]] > lim or an[at[j]] < -lim:
                k += 1
        return k >= par["n_bad"]
    first, last = 0, m - 1                      # of the reports that are kept
    if m >= lw:
        k = scan(list(range(m)), lw, long_bad)
        if k:
            first = k + lw // 2
        k = scan(list(range(m - 1, -1, -1)), lw, long_bad)
        if k:
            last = m - 1 - k - lw // 2
    if first - 1 < last + 1:
        order = list(range(first, last + 1))
        if len(order) >= sw:
            a = scan(order, sw, short_bad)
            b = scan(order[::-1], sw, short_bad)
            every = len(order) - sw + 1
            # windows failing to the end of the record condemn all of their last window
            first += a + (sw - 1 if a == every else 0)
            last -= b + (sw - 1 if b == every else 0)
    if first > last + 1 or (first - 1 >= last + 1):
        return n, -1, at                        # nothing good: not a tail
    return first, last, at


def judge(c, p, stats, states):
    n = p["n"]
    par = {"long": p["long"], "short": p["short"], "long_n": 3.0, "short_n": 3.0, "n_bad": p.get("bad", 1), "inter": 0.29,
           "intra": 1.0}
    reps, use, an, var = record(c, n, states, anoms=p.get("anoms", True), choose_var=p.get("unsure", True), free=p.get("free", 99))
    tqc.sst_tail_check(reps, par["long"], 3.0, par["short"], 3.0, par["n_bad"], par["inter"], par["intra"], LIM)
    c.require(all(r.get_qc("SST", f) in (0, 1) for r in reps for f in ("drf_tail1", "drf_tail2")), "every report gets both flags")
    first, last, at = expected(n, use, an, var, par, stats)
    m = len(at)
    for i, r in enumerate(reps):
        a = first < n and first > 0 and i <= at[first - 1]
        b = last >= 0 and last < m - 1 and i >= at[last + 1]
        c.require(r.get_qc("SST", "drf_tail1") == (1 if a else 0), "flagged up to where good data begin")
        c.require(r.get_qc("SST", "drf_tail2") == (1 if b else 0), "flagged from where good data end")


LONG = [{"n": 0, "long": 1, "short": 1}, {"n": 1, "long": 1, "short": 1}, {"n": 3, "long": 1, "short": 5, "states": 1},
        {"n": 5, "long": 1, "short": 9}, {"n": 5, "long": 3, "short": 9}, {"n": 6, "long": 5, "short": 9},
        {"n": 4, "long": 3, "short": 2}]


@harness(quick=LONG, thorough=LONG + [{"n": 6, "long": 3, "short": 9}, {"n": 4, "long": 3, "short": 9, "states": 1},
                                      {"n": 5, "long": 3, "short": 2}], nonlinear=True, time=200)
def windows(c, p):
    """any mean and spread of each window"""
    tab = {}

    def stat(kind, xs):
        key = (kind,) + tuple(sorted(int(round(float(x))) for x in xs))
        if key not in tab:
            tab[key] = c.float("%s_%s" % (kind, "_".join("%d" % k for k in key[1:])), -20.0 if kind == "mean" else 0.0, 20.0)
        return tab[key]
    c.patch(tqc, "trim_mean", lambda xs, trim: stat("mean", xs))
    c.patch(tqc, "trim_std", lambda xs, trim: stat("spread", xs))
    judge(c, dict(p, anoms=False), lambda xs: (stat("mean", xs), stat("spread", xs)), bool(p.get("states")))


SHORT = [{"n": 2, "long": 9, "short": 1, "states": 1}, {"n": 4, "long": 9, "short": 1}, {"n": 4, "long": 9, "short": 2, "bad": 2},
         {"n": 4, "long": 9, "short": 3, "bad": 1}, {"n": 5, "long": 9, "short": 3, "bad": 2, "unsure": False}]


@harness(quick=SHORT, thorough=SHORT + [{"n": 5, "long": 9, "short": 2, "bad": 1}, {"n": 6, "long": 9, "short": 3, "bad": 2,
                                                                                    "unsure": False}],
         nonlinear=True, time=200)
def single(c, p):
    """the short check on any anomalies"""
    judge(c, p, None, bool(p.get("states")))


def real(xs):
    m = sum(xs) / len(xs)
    return m, math.sqrt(sum((x - m) * (x - m) for x in xs) / len(xs))


VALUES = [{"n": 2, "long": 1, "short": 9, "unsure": False}, {"n": 3, "long": 3, "short": 9, "unsure": False, "free": 1}]


@harness(quick=VALUES, thorough=VALUES + [{"n": 3, "long": 3, "short": 9, "unsure": False},
                                          {"n": 4, "long": 3, "short": 9, "unsure": False, "free": 1}],
         nonlinear=True, time=250)
def values(c, p):
    """the long check on any anomalies, with the real mean and spread"""
    judge(c, p, real, False)


@harness(time=60)
def voyage(c, p):
    """through the voyage: drifters only, with all that is matched to them"""
    pt = c.opt("pt", lambda k: c.int(k, 0, 20))
    gone = c.int("gone", 0, 4)
    reps, use, an, var = record(c, 2, False, choose_var=False)
    v = ex.Voyage()
    v.reps = reps
    reps[0].setvar("PT", pt)
    if gone:
        r = reps[1]
        name = ["OSTIA", "ICE", "BGVAR", "time_diff"][gone - 1]
        if gone == 4:
            r.setext("time_diff", -1.0)
        else:
            del r.ext[name]
    par = {"long_win_len": 1, "long_err_std_n": 3.0, "short_win_len": 1, "short_err_std_n": 3.0, "short_win_n_bad": 1,
           "drift_inter": 0.29, "drif_intra": 1.0, "background_err_lim": LIM}
    try:
        v.buoy_tail_check(par, sort=False)
        done = True
    except AssertionError:
        done = False
    drifter = pt is not None and pt == 7
    c.require(done == (not drifter or gone == 0), "reports without matches or out of order are refused")
    for r in reps:
        for f in ("drf_tail1", "drf_tail2"):
            x = r.get_qc("SST", f)
            if done and drifter:
                c.require(x == 0 or x == 1, "every report of a drifter gets its flags")
            else:
                c.require(x == 7, "other platforms are left alone")
