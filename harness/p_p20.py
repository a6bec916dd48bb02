"""The buddy check: reports are compared with the average of their surroundings."""
from api import again, harness
from buddy import Field, averages, deck, layout, near, place
import Extended_IMMA as ex

BOUNDS = "decks of 1..4 reports (thorough: up to 6) whose cells take every offset of up to 3 columns, 3 rows and 5 pentads around "\
         "cells at the equator, middle latitudes, both poles, the date line and both ends of the year; positions anywhere inside "\
         "their cells in one-tenth steps; any values, climatologies and standard deviations; four search boxes"
ASSUMPTIONS = ["reports that pass the filter have an anomaly",
               "sums and products of reals: rounding of the averages is not modelled"]

LIMITS = [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]]
PARS = {4: {"limits": LIMITS, "number_of_obs_thresholds": [[0, 1, 2], [0], [0, 1, 2], [0, 2]],
            "multipliers": [[4.0, 3.5, 3.0], [2.5], [2.25, 2.0, 1.75], [1.5, 1.25]]},
        2: {"limits": [[1, 1, 1], [2, 2, 2]], "number_of_obs_thresholds": [[0, 1], [0, 2]],
            "multipliers": [[4.0, 3.5], [2.5, 2.25]]},
        1: {"limits": [[2, 1, 1]], "number_of_obs_thresholds": [[0, 1]], "multipliers": [[4.0, 3.5]]}}
def multiplier(n, thresholds, values):
    return [v for t, v in zip(thresholds, values) if n > t][-1]


PLACES = [(180, 89, 30), (0, 44, 0), (359, 30, 72), (200, 10, 36), (20, 120, 1), (100, 2, 71), (90, 178, 10)]


def jobs(deep):
    out = [{"base": b, "others": ["any"], "span": (4, 3, 5) if deep else (3, 2, 5)} for b in PLACES[:5]]
    out += [{"base": b, "others": ["any"], "span": (40, 0, 0), "par": 2} for b in ((350, 2, 71), (3, 178, 2))]
    out += [{"base": (5, y, 5), "others": [(k, dy, 0)], "par": 1}
            for y, dy in ((0, 0), (0, 1), (179, 0), (179, -1)) for k in (3, 179, 180, 229, 300)]
    out += [{"base": (5, 0, 5), "others": [(k, 0, 0)], "par": 2} for k in (114, 115)]
    out += [{"base": (5, 0, 5), "others": [(0, 179, 0)], "par": 1}, {"base": (5, 179, 5), "others": [(0, -178, 0)], "par": 1},
            {"base": (5, 1, 5), "others": [(0, 178, 1)], "par": 1}]
    out += [{"base": b, "others": [(1, 0, 0), (1, 0, 0), (0, 1, -1)], "inside": 1, "par": 2} for b in PLACES[:3]]
    out += [{"base": PLACES[1], "others": [(1, 0, 0), (0, 0, 0), (0, 2, 0)], "filter": 1, "clim": 1, "par": 2},
            {"base": PLACES[0], "others": ["any", (1, 1, 1)], "span": (2, 1, 0), "par": 2},
            {"base": PLACES[0], "others": [(1, 0, 0), (0, -1, 0)], "var": "SLP", "gone": 1},
            {"base": PLACES[0], "others": [], "var": "AT", "gone": 1},
            {"base": PLACES[2], "others": [(3, 0, 0), (2, 2, 4), (2, 2, 2)], "var": "DPT"},
            {"base": PLACES[2], "others": [(1, 1, 4)] * 2 + [(1, 1, -4)] * 1},
            {"base": PLACES[2], "others": [(2, -1, 4)] * 2 + [(2, 1, -3)] * 1}]
    if deep:
        out += [{"base": b, "others": ["any", o], "span": (2, 1, 4)} for b in PLACES[:4] for o in ((1, 1, 1), (2, 0, 0))]
        out += [{"base": b, "others": [(1, 0, 0), (0, 0, 0), (0, 2, 0), (2, 0, 4), (0, 1, 3)], "filter": 1} for b in PLACES[1:3]]
        out += [{"base": (5, y, 5), "others": ["any"], "span": (250, 0, 0), "par": 1} for y in (0, 1, 179)]
    return out


@harness(quick=jobs(0), thorough=jobs(1), nonlinear=True, time=150)
def buddy(c, p):
    intype = p.get("var", "SST")
    d, cells, xs, used = deck(c, p, intype)
    sd = Field(c, cells, opt=p.get("gone"))
    PAR = PARS[p.get("par", 4)]
    LIMITS = PAR["limits"]
    d.mds_buddy_check(intype, sd, PAR)
    avg = averages(cells, xs, used)
    c.require(len(d) == len(cells), "no report is lost")
    for i, k in enumerate(cells):
        got = d.reps[i].get_qc(intype, "bud")
        if not used[i]:
            c.require(got == 0, "a report outside the filter is not flagged")
            continue
        mean, limit = 0.0, 500.0
        for j, box in enumerate(LIMITS):
            nb = [avg[q] for q in avg if near(k, q, box)]
            if nb:
                mean = sum(a for a, n in nb) / float(len(nb))
                n = sum(n for a, n in nb)
                limit = multiplier(n, PAR["number_of_obs_thresholds"][j], PAR["multipliers"][j]) * sd.of(k)
                break
        c.require(got == (1 if abs(xs[i] - mean) >= limit else 0),
                  "flagged when it differs from the average of the nearest surroundings by the limit or more")


OLD = [([0, 5, 15, 100], [4.0, 3.5, 3.0, 2.5]), ([0], [4.0]), ([0, 5, 15, 100], [4.0, 3.5, 3.0, 2.5]), ([0], [4.0])]


def olds(deep):
    out = [{"base": b, "others": ["any"], "span": (4, 3, 5) if deep else (3, 2, 5), "times": [1, t]}
           for b, t in ((PLACES[0], 1), (PLACES[2], 6))]
    out += [{"base": PLACES[i], "others": [o, (2, 2, 4), (0, -2, 1)][:n], "times": [2, t, 1, 3]}
            for i, o, n, t in ((0, (1, -1, 2), 3, 5), (1, (1, 1, -2), 1, 16), (2, (1, 0, -4), 2, 16), (3, (0, 1, 3), 1, 5),
                               (4, (2, 0, 0), 2, 6), (0, (1, 0, 0), 1, 101), (0, (1, 1, 4), 1, 100), (1, (-1, 1, 0), 1, 15))]
    return out


@harness(quick=olds(0), thorough=olds(1), nonlinear=True, time=100)
def old_style(c, p):
    """the limits of the older check, which has its boxes, thresholds and multipliers built in"""
    cells = layout(c, p)
    g, xs, where = ex.Np_Super_Ob(), [], []
    for i, k in enumerate(cells):
        lat, lon, m, d = place(c, i, k, p.get("inside"))
        if lon >= 180:
            lon = lon - 360.0
        where.append((lat, lon, m, d))
        x = c.float("v%d" % i, -10.0, 10.0)
        for j in range(p["times"][i]):
            xs.append((k, x))
            g.add_rep(lat, lon, 2003, m, d, x)
    if c.flag("gone"):
        g.add_rep(*(where[0][:2] + (2003,) + where[0][2:] + (None,)))
    g.take_average()
    sd = Field(c, cells, opt=p.get("gone"))
    g.get_buddy_limits(sd)
    avg = averages([k for k, x in xs], [x for k, x in xs], [True] * len(xs))
    for i, k in enumerate(cells):
        mean, limit = 0.0, 500.0
        for box, (t, v) in zip(LIMITS, OLD):
            nb = [avg[q] for q in avg if near(k, q, box)]
            if nb:
                mean = sum(a for a, n in nb) / float(len(nb))
                limit = multiplier(sum(n for a, n in nb), t, v) * sd.of(k)
                break
        c.require(c.close(g.get_buddy_mean(*where[i]), mean), "the mean of the first surroundings with any report")
        c.require(c.close(g.get_buddy_stdev(*where[i]), limit), "the limit by the number of neighbouring reports")


@harness(quick=[{"k": 1}, {"k": 3}, {"k": 4}], thorough=[{"k": 1}, {"k": 3}, {"k": 4}, {"k": 5}], time=30)
def thresholds(c, p):
    k = p["k"]
    lim = [0]
    for i in range(1, k):
        lim.append(c.int("t%d" % i, 1, 200))
        c.assume(lim[i] > lim[i - 1])
    mul = [c.float("m%d" % i, 0.01, 10.0) for i in range(k)]
    n = c.int("n", 0, 400)
    got = ex.get_threshold_multiplier(n, lim, mul)
    if n == 0:
        c.require(got == 4.0, "no observations: 4")
    for i in range(k):
        if n > lim[i] and (i == k - 1 or n <= lim[i + 1]):
            c.require(got == mul[i], "the multiplier of the highest threshold exceeded")


again("buddy", quick=[{"base": PLACES[0], "others": [(1, 0, 0)], "par": 2, "then": {"others": []}}, {"base": PLACES[1], "others": [(1, 0, 0)], "par": 1, "then": {"base": PLACES[0]}}], nonlinear=True, time=100)
