"""Drifters that are biased or noisy as a whole, and what these checks rest on: daylight and trimmed statistics."""
import math

from api import again, harness
import Extended_IMMA as ex
import trackqc as tqc
import spec
from drifter import record

BOUNDS = "records of 0..4 reports (thorough: 6) with any temperatures, of which those after the second are one of three in the "\
         "noise check; background variances of two values, one of them above the limit; any number of reports needed; trimmed "\
         "statistics of 1..4 values; any elevation of the sun at any date, hour and position"
ASSUMPTIONS = ["the elevation of the sun is an arbitrary function of date, hour and position", "background, ice and variance are "
               "within their valid ranges when present"]

LIM = 0.3
FLAGS = ("drf_bias", "drf_noise", "drf_short")


def judge(c, reps, use, an, var, n_eval, n_bad, want_noise=True):
    n = len(reps)
    at = [i for i in range(n) if use[i] and not var[i] > LIM]
    masked = any(var[i] is not None and var[i] > LIM for i in range(n))
    bias = noise = short = False
    if at and len(at) >= n_eval:
        xs = [an[i] for i in at]
        mean = sum(xs) / len(xs)
        bias = mean > 1.1 or mean < -1.1
        if want_noise:
            power = sum((x - mean) * (x - mean) for x in xs) / len(xs)
            noise = power > 1.0 + sum(var[i] for i in at) / len(at)
    elif at and not masked:
        k = 0
        for i in at:
            lim = 3.0 * math.sqrt(math.sqrt(var[i]) ** 2 + 0.29 ** 2 + 1.0 ** 2)
            k += 1 if (an[i] > lim or an[i] < -lim) else 0
        short = k >= n_bad
    c.require(True, "the record is judged")
    for r in reps:
        for f, w in zip(FLAGS, (bias, noise, short)):
            if f == "drf_noise" and not want_noise:
                continue
            got = r.get_qc("SST", f)
            c.require(got == (1 if w else 0), "%s: all flagged exactly when the record fails" % f)


JOBS = [{"n": 0}, {"n": 1, "states": 1}, {"n": 2, "states": 1}, {"n": 3}, {"n": 4, "free": 2}]


@harness(quick=JOBS, thorough=JOBS + [{"n": 3, "states": 1}, {"n": 5, "free": 2}, {"n": 6, "free": 1}], nonlinear=True, time=200)
def record_as_a_whole(c, p):
    """bias, and short records"""
    n = p["n"]
    n_eval, n_bad = c.int("n_eval", 1, n + 2), c.int("n_bad", 1, 3)
    reps, use, an, var = record(c, n, bool(p.get("states")))
    # far from the limit on noise: that is decided in jobs of its own
    tqc.sst_biased_noisy_check(reps, n_eval, 1.1, 1.0, 0.29, 3.0, n_bad, LIM)
    judge(c, reps, use, an, var, n_eval, n_bad, want_noise=False)


@harness(quick=[{"n": 1, "free": 1}, {"n": 2, "free": 2}, {"n": 3, "free": 1}], thorough=[
    {"n": 1, "free": 1}, {"n": 2, "free": 2}, {"n": 3, "free": 1}, {"n": 3, "free": 2}, {"n": 4, "free": 1}],
         nonlinear=True, time=200)
def noise(c, p):
    n = p["n"]
    n_eval = c.int("n_eval", 1, n + 1)
    reps, use, an, var = record(c, n, False, free=p["free"])
    tqc.sst_biased_noisy_check(reps, n_eval, 1.1, 1.0, 0.29, 3.0, 1, LIM)
    at = [i for i in range(n) if use[i] and not var[i] > LIM]
    if at:
        # keep clear of the limit itself, where rounding decides
        xs = [an[i] for i in at]
        mean = sum(xs) / len(xs)
        power, lim = sum((x - mean) * (x - mean) for x in xs) / len(xs), 1.0 + sum(var[i] for i in at) / len(at)
        c.assume(power > lim + 1e-6 or power < lim - 1e-6)
    judge(c, reps, use, an, var, n_eval, 1)


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4}], thorough=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4}, {"n": 5}],
         nonlinear=True, time=120)
def trimmed(c, p):
    """the mean and spread after cutting a fraction off each end"""
    n = p["n"]
    xs = [c.float("x%d" % i, -100.0, 100.0) for i in range(n)]
    trim = c.choice("trim", [0, 100, 4, 3, 2 * n + 1])
    cut = 0 if trim == 0 else n // trim
    order = sorted(xs)[cut:n - cut]
    before = list(xs)
    mean, spread = tqc.trim_mean(xs, trim), tqc.trim_std(xs, trim)
    m = sum(order) / len(order)
    v = sum((x - m) * (x - m) for x in order) / len(order)
    c.require(c.close(mean, m), "the mean of what is left")
    c.require(spread >= 0 and c.close(spread * spread, v), "the spread of what is left")
    c.require(all(a == b for a, b in zip(before, xs)), "the values themselves are not touched")


@harness(time=120)
def daylight(c, p):
    """day is when the sun is above the limit at that date, time and place"""
    year = c.choice("year", [1900, 2000, 2003, 2004])
    month, day = c.int("month", 1, 12), c.int("day", 1, 31)
    hour = c.float("hour", 0.0, 24.0)
    lat, lon = c.float("lat", -91.0, 91.0), c.float("lon", -180.0, 360.0)
    el, lim = c.float("elevation", -90.0, 90.0), c.float("limit", -20.0, 20.0)
    seen = []

    def sun(*a):
        seen.append(a)
        return 0.0, el, 0.0, 0.0, 0.0, 0.0
    c.patch(tqc, "sunangle", sun)
    exists = day <= spec.month_len(year, month)
    try:
        got = tqc.track_day_test(year, month, day, hour, lat, lon, lim)
    except AssertionError:
        got = None
    if not exists or lat > 90 or lat < -90:
        c.require(got is None, "no such date or place: refused")
        return
    c.require(got is not None and bool(got) == (el > lim), "day exactly when the sun is above the limit")
    for a in seen:
        c.require(a[0] == year and a[1] == spec.day_of_year(year, month, day), "the sun of that date")
        t = a[2] + a[3] / 60.0 + a[4] / 3600.0
        c.require(c.close(t, hour) and a[5] == 0 and a[6] == 0, "the sun of that hour, in universal time")
        c.require(abs(a[7] - lat) <= 0.0002 and abs(a[8] - lon) <= 0.0002, "the sun of that place")


@harness(time=60)
def voyage(c, p):
    """through the voyage: drifters only, with all that is matched to them"""
    pt = c.opt("pt", lambda k: c.int(k, 0, 20))
    gone = c.int("gone", 0, 4)
    reps, use, an, var = record(c, 2, False, choose_var=False)
    v = ex.Voyage()
    v.reps = reps
    reps[0].setvar("PT", pt)
    if gone:
        r = reps[1]
        if gone == 4:
            r.setext("time_diff", -1.0)
        else:
            del r.ext[["OSTIA", "ICE", "BGVAR"][gone - 1]]
    par = {"n_eval": 1, "bias_lim": 1.1, "drif_intra": 1.0, "drif_inter": 0.29, "err_std_n": 3.0, "n_bad": 1,
           "background_err_lim": LIM}
    try:
        v.buoy_bias_noise_check(par, sort=False)
        done = True
    except AssertionError:
        done = False
    drifter = pt is not None and pt == 7
    c.require(done == (not drifter or gone == 0), "reports without matches or out of order are refused")
    if done and drifter:
        judge(c, reps, use, an, var, 1, 1, want_noise=False)
    else:
        c.require(all(r.get_qc("SST", f) == 7 for r in reps for f in FLAGS), "other platforms are left alone")


@harness(time=60)
def settings(c, p):
    """each setting of the voyage check arrives where it belongs"""
    lim, intra, inter, k = [c.choice(s, [a, b]) for s, a, b in (("bias", 1.0, 2.0), ("intra", 0.5, 2.0), ("inter", 0.25, 3.0),
                                                                 ("width", 1.0, 4.0))]
    n_eval, n_bad, bg = c.int("n_eval", 1, 3), c.int("n_bad", 1, 2), c.choice("bg", [0.01, 0.3])
    reps, use, an, var = record(c, 2, False, choose_var=False)
    v = ex.Voyage()
    v.reps = reps
    v.buoy_bias_noise_check({"n_eval": n_eval, "bias_lim": lim, "drif_intra": intra, "drif_inter": inter, "err_std_n": k,
                             "n_bad": n_bad, "background_err_lim": bg}, sort=False)
    good = 0.04 <= bg
    mean = (an[0] + an[1]) / 2.0
    half = (an[0] - an[1]) / 2.0
    wide = k * math.sqrt(math.sqrt(0.04) ** 2 + inter ** 2 + intra ** 2)
    far = sum(1 for x in an if x > wide or x < -wide)
    spread = math.sqrt(intra * intra + 0.04)
    c.assume(abs(abs(half) - spread) > 1e-6)
    want = (good and n_eval <= 2 and (mean > lim or mean < -lim), good and n_eval <= 2 and abs(half) > spread,
            good and n_eval > 2 and far >= n_bad)
    for r in reps:
        for f, w in zip(FLAGS, want):
            c.require(r.get_qc("SST", f) == (1 if w else 0), "%s by its own settings" % f)


again("record_as_a_whole", quick=[{"n": 1}, {"n": 2, "then": {"n": 1}}], nonlinear=True, time=100)
