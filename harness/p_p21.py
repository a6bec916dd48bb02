"""The Bayesian buddy check and its probability of gross error."""
import math

from api import again, harness
from buddy import Field, averages, deck, near
import Extended_IMMA as ex
import qc

BOUNDS = "decks of 1..4 reports (thorough: 5) laid out within and outside the search box around cells at the equator, the date "\
         "line, both poles and the turn of the year; any anomalies, fields and measurement errors; the probability itself for any "\
         "limits, means and deviations, with at most 5 (thorough: 8) quantised values"
ASSUMPTIONS = ["reports that pass the filter have an anomaly inside the limits",
               "real arithmetic; erf is any odd increasing function between -1 and 1"]

PAR = {"bayesian_buddy_check": {"prior_probability_of_gross_error": 0.05, "quantization_interval": 0.1,
                                "measurement_error": 1.0, "limits": [2, 2, 4], "noise_scaling": 3.0},
       "SST": {"maximum_anomaly": 8.0}, "AT": {"maximum_anomaly": 10.0}}


def layouts(deep):
    at = [(180, 89, 30), (0, 44, 0), (359, 30, 72)]
    out = [{"base": b, "others": ["any"], "span": s} for b in at for s in ((5, 0, 5), (0, 3, 0))]
    out += [{"base": (5, y, 0), "others": [(180, 0, 0), (3, 0, 0)], "var": "AT"} for y in (0, 179)]
    out += [{"base": at[0], "others": []}, {"base": at[1], "others": [(1, 0, 0), (0, 0, 0), (0, 2, 0)], "filter": 1, "clim": 1},
            {"base": at[2], "others": [(1, 0, 0), (1, 0, 0), (-2, 2, 4)], "var": "AT", "inside": 1},
            {"base": at[2], "others": [(1, 0, 0)], "gone": 1}]
    if deep:
        out += [{"base": at[k], "others": ["any", (1, 0, 0), (1, 0, 0)], "span": (1, 1, 1)} for k in range(3)]
        out += [{"base": at[0], "others": [(1, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 4)], "filter": 1}]
    return out


@harness(quick=layouts(0), thorough=layouts(1), nonlinear=True, time=100)
def flags(c, p):
    intype = p.get("var", "SST")
    par = {"SST": PAR["SST"], "AT": PAR["AT"], "bayesian_buddy_check": dict(PAR["bayesian_buddy_check"])}
    bb = par["bayesian_buddy_check"]
    p0, q = c.float("p0", 0.0, 1.0), c.float("q", 0.001, 1.0)
    bb["prior_probability_of_gross_error"], bb["quantization_interval"] = p0, q
    bb["measurement_error"] = 0.5 if p.get("gone") else 2.0
    bb["noise_scaling"] = 2.5
    d, cells, xs, used = deck(c, p, intype)
    fields = [Field(c, cells, n, opt=p.get("gone")) for n in ("s", "t", "u")]
    asked = []

    def p_gross(*a):
        asked.append((a, c.float("pg%d" % len(asked), 0.0, 1.0)))
        return asked[-1][1]
    c.patch(qc, "p_gross", p_gross)
    d.bayesian_buddy_check(intype, fields[0], fields[1], fields[2], par)
    avg = averages(cells, xs, used)
    c.require(len(d) == len(cells) and len(asked) == len([u for u in used if u]), "every report inside the filter is judged once")
    k = 0
    hi = par[intype]["maximum_anomaly"]
    for i, cell in enumerate(cells):
        got = d.reps[i].get_qc(intype, "bbud")
        if not used[i]:
            c.require(got == 0, "a report outside the filter is not flagged")
            continue
        (a0, aq, ahi, alo, ax, amu, asd), pg = asked[k]
        k += 1
        c.require(a0 == p0 and aq == q and ahi == hi and alo == -hi and ax == xs[i], "prior, quantum, limits and anomaly")
        nb = [avg[z] for z in avg if near(cell, z, bb["limits"])]
        if nb:
            n = float(len(nb))
            s1, s2, s3 = [f.of(cell) for f in fields]
            each = bb["measurement_error"] * bb["measurement_error"] + bb["noise_scaling"] * s2 * s2
            var = s1 * s1 + each + sum([each / m for _, m in nb]) / (n * n) + s3 * s3 / n
            c.require(c.close(amu, sum(a for a, _ in nb) / n), "the mean is the average of the neighbouring cells")
            c.require(asd > 0.0, "the deviation is positive")
            c.require(c.close(asd * asd, var), "the variance is that of the report plus that of the neighbour average")
        else:
            c.require(amu == 0.0 and asd == 500.0, "without neighbours every report is plausible")
        c.require(got >= 0 and got <= 9 and got <= 10.0 * pg and (got == 9 or 10.0 * pg < got + 1),
                  "the flag is the probability in tenths, rounded down, at most 9")


@harness(nonlinear=True, time=60)
def gross(c, p):
    """Bayes' rule with any likelihood of a good value"""
    p0, q = c.float("p0", 0.001, 1.0), c.float("q", 0.01, 2.0)
    lo, hi = c.float("lo", -20.0, 20.0), c.float("hi", -20.0, 20.0)
    x, mu, sigma = c.float("x", -20.0, 20.0), c.float("mu", -20.0, 20.0), c.float("sigma", 0.01, 600.0)
    c.assume((lo < hi) & (lo <= x) & (x <= hi))
    good = c.float("good", 0.0, 1.0)
    seen = []

    def likelihood(*a):
        seen.append(a)
        return good
    c.patch(qc, "p_data_given_good", likelihood)
    g = qc.p_data_given_gross(q, hi, lo)
    c.require(c.close(g * (q + (hi - lo)), q), "gross errors are uniform on the quantised values between the limits")
    c.require(g > 0.0 and g < 1.0, "a probability")
    r = qc.p_gross(p0, q, hi, lo, x, mu, sigma)
    c.require(len(seen) == 1 and seen[0] == (x, q, hi, lo, mu, sigma), "the likelihood of the value")
    c.require(r >= 0.0 and r <= 1.0, "a probability")
    c.require(c.close(r * (p0 * g + (1.0 - p0) * good), p0 * g), "Bayes' rule")


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 4}, {"n": 5}], thorough=[{"n": k} for k in range(1, 9)], nonlinear=True, time=60)
def good(c, p):
    """the likelihood of good values: a distribution over the quantised values between the limits"""
    n = p["n"]
    q = c.choice("q", [0.125, 0.5, 1.0])
    sigma = c.choice("sigma", [0.25, 1.0, 3.0])
    lo = c.float("lo", -5.0, 5.0)
    mu = c.float("mu", -10.0, 10.0)
    hi = lo + n * q
    c.assume((mu >= lo) & (mu <= hi))
    ps = [qc.p_data_given_good(lo + k * q, q, hi, lo, mu, sigma) for k in range(n + 1)]
    for x in ps:
        c.require(x >= 0.0 and x <= 1.0, "a probability")
    c.require(c.close(sum(ps), 1.0), "the values between the limits make up the whole")


@harness(nonlinear=True, time=60)
def normal(c, p):
    """the likelihood is the normal probability of the quantum around the value, given the limits"""
    q, sigma = c.choice("q", [0.125, 1.0]), c.choice("sigma", [0.5, 2.0, 500.0])
    lo, width = c.float("lo", -5.0, 5.0), c.float("width", 0.01, 20.0)
    x, mu = c.float("x", -5.0, 25.0), c.float("mu", -10.0, 10.0)
    hi = lo + width
    c.assume((x >= lo) & (x <= hi) & (mu >= lo) & (mu <= hi))
    got = qc.p_data_given_good(x, q, hi, lo, mu, sigma)

    def phi(v):
        return 0.5 * math.erf((v - mu) / (sigma * math.sqrt(2)))
    whole = phi(hi + 0.5 * q) - phi(lo - 0.5 * q)
    c.require(c.close(got * whole, phi(x + 0.5 * q) - phi(x - 0.5 * q)), "the share of the quantum in what the limits allow")


@harness(time=60)
def refuses(c, p):
    """arguments that make no sense are refused"""
    what = c.int("what", 0, 5)
    bad = c.float("bad", -5.0, 0.0)
    over = c.float("over", 0.001, 5.0)
    p0, q, hi, lo, x, sigma = 0.1, 0.1, 1.0, -1.0, 0.0, 1.0
    if what == 0:
        p0 = 1.0 + over
    elif what == 1:
        p0 = -over
    elif what == 2:
        q = bad
    elif what == 3:
        sigma = bad
    elif what == 4:
        x = 1.0 + over
    else:
        x = -1.0 - over
    try:
        qc.p_gross(p0, q, hi, lo, x, 0.0, sigma)
        done = True
    except AssertionError:
        done = False
    c.require(not done, "refused")


again("flags", quick=[{"base": (180, 89, 30), "others": [(1, 0, 0)], "then": {"others": []}}], nonlinear=True, time=100)
again("good", quick=[{"n": 2, "then": {"n": 1}}], nonlinear=True, time=60)
