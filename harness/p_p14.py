"""Speeds, courses, distances and projected positions along a voyage."""
from api import harness
import Extended_IMMA as ex
import rep as R
import geo

BOUNDS = "voyages of 0..4 reports (thorough: 5) at every position and time, an hour possibly missing, reported course and "\
         "speed possibly missing"
ASSUMPTIONS = ["great-circle distance, course, projected and intermediate points and the time difference are arbitrary "
               "functions of their arguments (their own properties are stated elsewhere)"]


def reports(c, n, hours=False, moving=False, dated=False, days=1):
    out = []
    for i in range(n):
        r = R.report(ID="SHIP", UID=str(i), YR=2000, MO=1, DY=1 + days * i)
        r.setvar("LAT", c.float("lat%d" % i, -90.0, 90.0))
        r.setvar("LON", c.float("lon%d" % i, -180.0, 180.0))
        h = c.int("hr%d" % i, 0, 23) if dated else c.float("hr%d" % i, 0.0, 23.9)
        if hours and c.flag("hr%d gone" % i):
            h = None
        r.data[ex.VARLIST.index("HR")] = float("nan") if h is None else h
        if dated:
            r.calculate_dt()
        r.w = (2000, 1, 1 + days * i, h)
        if moving:
            r.setext("vsi", c.float("vsi%d" % i, 0.0, 50.0))
            r.setext("dsi", c.float("dsi%d" % i, 0.0, 360.0))
        out.append(r)
    return out


def step(g, a, b):
    """from a to b: speed, distance, course, hours"""
    d = g.dist(b.lat(), b.lon(), a.lat(), a.lon())
    k = g.course(a.lat(), a.lon(), b.lat(), b.lon())
    t = g.hours(*(a.w + b.w))
    if t is None or t == 0:
        return d, d, k, 0.0
    return d / t, d, k, t


NAMES = ("speed", "distance", "course", "time_diff")


def has(c, r, want, pre, what):
    for n, w in zip(NAMES, want):
        got = r.getvar(pre + n)
        if w is None:
            c.require(got is None, what + ": no " + n)
        else:
            c.require(got is not None, what + ": " + n + " is there")
            c.require(c.close(got, w), what + ": " + n)


@harness(quick=[{}], nonlinear=True, time=60)
def difference(c, p):
    g = geo.stub(c)
    a, b = reports(c, 2, hours=True)
    s, d, k, t = b - a
    for got, w, n in zip((s, d, k, t), step(g, a, b), NAMES):
        c.require(c.close(got, w), "from one report to another: " + n)


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3}], thorough=[{"n": i} for i in (1, 2, 3, 4, 5)], nonlinear=True, time=120)
def appended(c, p):
    g = geo.stub(c)
    v = ex.Voyage()
    c.require(len(v) == 0, "an empty voyage")
    rs = reports(c, p["n"])
    for i, r in enumerate(rs):
        v.add_report(r)
        c.require(len(v.get_speed()) == i + 1 and (v.meansp() is None) == (i == 0), "the speeds so far")
    follow(c, g, v, rs)
    sp = v.get_speed()
    c.require(len(sp) == len(rs) and sp[0] is None, "a speed per report, none for the first")
    for x, r in zip(sp[1:], rs[1:]):
        c.require(c.close(x, r.getvar("speed")), "the speeds in order")
    m = v.meansp()
    if len(rs) < 2:
        c.require(m is None, "no mean speed of one report")
    else:
        c.require(c.close(m * (len(rs) - 1), sum(sp[1:])), "the mean of the speeds")


def follow(c, g, v, rs):
    c.require(len(v) == len(rs) and all(a is b for a, b in zip(v.rep_feed(), rs)), "the reports in order")
    has(c, rs[0], (None, None, None, None), "", "first report")
    for a, b in zip(rs, rs[1:]):
        has(c, b, step(g, a, b), "", "from the report before")


@harness(quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 2}, {"n": 3}, {"n": 4}], nonlinear=True, time=120)
def resorted(c, p):
    g = geo.stub(c)
    v = ex.Voyage()
    rs = reports(c, p["n"], dated=True)
    o = c.choice("order", perms(p["n"]))
    for i in o:
        v.add_report(rs[i])
    v.get_speed()
    v.meansp()
    v.sort()
    follow(c, g, v, rs)
    sp = v.get_speed()
    c.require(sp[0] is None and len(sp) == len(rs), "a speed per report")
    for x, r in zip(sp[1:], rs[1:]):
        c.require(c.close(x, r.getvar("speed")), "the speeds of the new order")
    c.require(c.close(v.meansp() * (len(rs) - 1), sum(sp[1:])), "and their mean")


@harness(quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 2}, {"n": 3}, {"n": 4}], nonlinear=True, time=120)
def same_day(c, p):
    """reports of one day, some at one time"""
    g = geo.stub(c)
    v = ex.Voyage()
    rs = reports(c, p["n"], dated=True, days=0)
    for r in rs:
        v.add_report(r)
    o = c.choice("order", perms(p["n"]))
    v.reps = [rs[i] for i in o]
    v.sort()
    c.require(sorted(r.getvar("UID") for r in v.reps) == [str(i) for i in range(p["n"])], "no report lost or repeated")
    for a, b in zip(v.reps, v.reps[1:]):
        c.require(a.w[3] <= b.w[3], "in time order")
    follow(c, g, v, list(v.reps))


def perms(n):
    if n == 0:
        return [()]
    return [q[:i] + (n - 1,) + q[i:] for q in perms(n - 1) for i in range(n)]


@harness(quick=[{"n": i} for i in (1, 2, 3, 4)], thorough=[{"n": i} for i in (1, 2, 3, 4, 5)], nonlinear=True, time=120)
def alternate(c, p):
    g = geo.stub(c)
    v = ex.Voyage()
    rs = reports(c, p["n"])
    v.reps = list(rs)
    v.calc_alternate_speeds()
    for i, r in enumerate(rs):
        if i == 0 or i == len(rs) - 1:
            has(c, r, (None, None, None, None), "alt_", "end of the voyage")
        else:
            has(c, r, step(g, rs[i - 1], rs[i + 1]), "alt_", "over a report")
    if len(rs) == 4:
        v.reps = [rs[0], rs[2], rs[3]]
        v.calc_alternate_speeds()
        for r, w in zip(v.reps, ((None,) * 4, step(g, rs[0], rs[3]), (None,) * 4)):
            has(c, r, w, "alt_", "after a report is gone")


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3}], nonlinear=True, time=60)
def prediction(c, p):
    g = geo.stub(c)
    v = ex.Voyage()
    rs = reports(c, p["n"])
    for r in rs:
        v.add_report(r)
    t = c.float("t", 0.0, 100.0)
    la, lo = v.predict_next_point(t)
    z = rs[-1]
    if len(rs) == 1 or abs(z.getvar("time_diff")) < 0.00001:
        c.require(la == z.lat() and lo == z.lon(), "without a speed the ship stays where it was last")
    else:
        y = rs[-2]
        s, d, k, dt = step(g, y, z)
        wla, wlo = g.ahead(y.lat(), y.lon(), k, s * (dt + t))
        c.require(c.close(la, wla) and c.close(lo, wlo), "ahead along the last course at the last speed")


KM = 0.539957


@harness(quick=[{"n": 1}, {"n": 2}, {"n": 3, "all": 1}], thorough=[{"n": 1}, {"n": 2}, {"n": 3}, {"n": 4, "all": 1}],
         nonlinear=True, time=120)
def projected(c, p):
    """the distance between where reported course and speed lead and where the next report is"""
    g = geo.stub(c)
    n = p["n"]
    rs = reports(c, n, moving=True)
    v = ex.Voyage()
    for r in rs:
        v.add_report(r)
    if not p.get("all"):
        for i, r in enumerate(rs):
            if c.flag("novsi%d" % i):
                r.setext("vsi", None)
            elif c.flag("nodsi%d" % i):
                r.setext("dsi", None)
    f, b = v.distr1(), v.distr2()
    c.require(len(f) == n and len(b) == n, "one discrepancy per report")
    c.require(f[0] is None, "none before the first report")
    c.require(b[n - 1] is None, "none after the last report")
    for i in range(1, n):
        x, y = rs[i - 1], rs[i]
        have = all(r.getvar(k) is not None for r in (x, y) for k in ("vsi", "dsi"))
        c.require((f[i] is not None) == have and (b[i - 1] is not None) == have, "both course and speed of both reports")
        if not have:
            continue
        t = y.getvar("time_diff")
        p1 = g.step(x.getvar("LAT"), x.getvar("LON"), x.getvar("vsi") / KM, x.getvar("dsi"), t)
        p2 = g.step(y.getvar("LAT"), y.getvar("LON"), y.getvar("vsi") / KM, y.getvar("dsi"), t)
        w = g.dist(y.getvar("LAT"), y.getvar("LON"), x.getvar("LAT") + p1[0] + p2[0], x.getvar("LON") + p1[1] + p2[1])
        c.require(c.close(f[i], w), "forwards")
        q1 = g.step(y.getvar("LAT"), y.getvar("LON"), y.getvar("vsi") / KM, y.getvar("dsi") - 180.0, t)
        q2 = g.step(x.getvar("LAT"), x.getvar("LON"), x.getvar("vsi") / KM, x.getvar("dsi") - 180.0, t)
        w = g.dist(x.getvar("LAT"), x.getvar("LON"), y.getvar("LAT") + q1[0] + q2[0], y.getvar("LON") + q1[1] + q2[1])
        c.require(c.close(b[i - 1], w), "backwards")


@harness(quick=[{"n": 2}, {"n": 3}, {"n": 4}], nonlinear=True, time=120)
def midpoints(c, p):
    g = geo.stub(c)
    n = p["n"]
    rs = reports(c, n)
    v = ex.Voyage()
    v.reps = list(rs)
    for i, r in enumerate(rs):
        r.setext("time_diff", None if c.flag("nodt%d" % i) else c.float("dt%d" % i, 0.0, 100.0))
    m = v.midpt()
    c.require(len(m) == n and m[0] is None and m[n - 1] is None, "one per report, none at the ends")
    for i in range(1, n - 1):
        a, b = rs[i].getvar("time_diff"), rs[i + 1].getvar("time_diff")
        fr = 0.0
        if a is not None and b is not None and a + b != 0:
            fr = a / (a + b)
        la, lo = g.inter(rs[i - 1].getvar("LAT"), rs[i - 1].getvar("LON"), rs[i + 1].getvar("LAT"), rs[i + 1].getvar("LON"), fr)
        c.require(c.close(m[i], g.dist(rs[i].getvar("LAT"), rs[i].getvar("LON"), la, lo)),
                  "distance to the point on the great circle between the neighbours at that time")
