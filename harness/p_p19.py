"""Neighbour checks along a voyage: iQuam track check and spike check."""
from api import harness
import Extended_IMMA as ex
import qc
import geo
import rep as R

BOUNDS = "voyages of 0..4 reports (thorough: 5), 0..3 (thorough: 4) neighbours either side, arbitrary distances, values any "\
         "or missing, times of three patterns (two reports: any), arbitrary limits"
ASSUMPTIONS = ["distance is an arbitrary symmetric function of the two positions",
               "the order in which equally bad reports are removed is the order of the voyage"]

TIMES = [(0, 1, 2, 3, 4), (0, 0, 0, 0, 0), (0, 5, 5, 30, 31)]


def pair_distance(c):
    tab = {}

    def dist(a, b, x, y):
        i, j = sorted((int(a), int(x)))
        if i == j:
            return 0.0
        if (i, j) not in tab:
            tab[i, j] = c.float("d%d_%d" % (i, j), 0.0, 20000.0)
        return tab[i, j]
    return dist


def voyage(c, n, p, **kw):
    import spherical_geometry as sph
    dist = pair_distance(c)
    c.patch(sph, "sphere_distance", dist)
    c.patch(sph, "course_between_points", lambda *a: 0.0)
    ts = [float(x) for x in TIMES[p["t"]]] if "t" in p else [c.float("t%d" % i, 0.0, 100.0) for i in range(n)]
    c.patch(qc, "time_difference", lambda y1, m1, d1, h1, y2, m2, d2, h2: ts[d2 - 1] - ts[d1 - 1])
    v, rs = ex.Voyage(), []
    for i in range(n):
        r = R.report(ID="SHIP5678", UID=str(i), LAT=float(i), LON=0.0, YR=2000, MO=1, DY=1 + i, HR=0.0, PT=p.get("pt", 5))
        rs.append(r)
        v.reps.append(r)
    return v, rs, dist, ts


def greedy(n, viol):
    """the reports removed: always the one with most violations left, the first of equals"""
    out = []
    while True:
        k = [0 if i in out else len([j for j in viol[i] if j not in out]) for i in range(n)]
        if max(k + [0]) == 0:
            return out
        out.append(k.index(max(k)))


def judge(c, rs, viol, got):
    n = len(rs)
    want = greedy(n, viol)
    for i in range(n):
        c.require(got[i] == 0 or got[i] == 1, "0 or 1")
        c.require((got[i] == 1) == (i in want), "the worst report is removed until nothing is left to remove")
        if got[i] == 1:
            c.require(len(viol[i]) > 0, "only a report that disagrees with a neighbour is flagged")
        else:
            c.require(not any(got[j] == 0 for j in viol[i]), "reports that are left agree with each other")


def jobs(deep):
    out = [{"n": 0, "nb": 1, "t": 0}, {"n": 1, "nb": 1, "t": 0}, {"n": 2, "nb": 1}, {"n": 2, "nb": 0, "t": 0},
           {"n": 3, "nb": 1, "t": 0, "pt": 7}, {"n": 3, "nb": 2, "t": 1, "pt": 6}, {"n": 4, "nb": 3, "t": 2},
           {"n": 4, "nb": 1, "t": 0}]
    if deep:
        out += [{"n": 4, "nb": k, "t": t} for k in (2, 3) for t in (0, 1)] + [{"n": 5, "nb": k, "t": 0} for k in (1, 2, 4)]
    return out


@harness(quick=jobs(0), thorough=jobs(1), nonlinear=True, time=250)
def iquam(c, p):
    n, nb = p["n"], p["nb"]
    v, rs, dist, ts = voyage(c, n, p)
    ship, buoy = c.float("ship", 0.1, 200.0), c.float("buoy", 0.1, 200.0)
    dd = c.float("delta_d", 0.0, 10.0)
    dt = c.float("delta_t", 0.001, 1.0) if "t" not in p else 0.0625
    for r in rs:
        r.set_qc("POS", "iquam_track", 1)
    v.iquam_track_check({"buoy_speed_limit": buoy, "ship_speed_limit": ship, "delta_d": dd, "delta_t": dt,
                         "number_of_neighbours": nb})
    lim = buoy if p.get("pt", 5) in (6, 7) else ship
    viol = [[j for j in range(n) if j != i and abs(i - j) <= nb and
             max(dist(i, 0, j, 0) - dd, 0.0) > lim * (abs(ts[i] - ts[j]) + dt)] for i in range(n)]
    c.require(len(v) == n, "no report is lost")
    judge(c, rs, viol, [r.get_qc("POS", "iquam_track") for r in rs])


@harness(quick=[{"n": 3, "nb": 2, "t": 0}], time=60)
def generic(c, p):
    v, rs, dist, ts = voyage(c, p["n"], p)
    y = c.int("y", 1850, 2020)
    ident = c.choice("id", ["SHIP     ", "         ", "00000    "])
    for r in rs:
        r.setvar("ID", ident)
        r.setvar("YR", y)
    c.assume(bool(qc.id_is_generic(ident, y)))
    v.iquam_track_check({"buoy_speed_limit": 15.0, "ship_speed_limit": 60.0, "delta_d": 1.0, "delta_t": 0.01,
                         "number_of_neighbours": 2})
    c.require(all(r.get_qc("POS", "iquam_track") == 0 for r in rs), "generic identifiers are not track checked")


@harness(quick=jobs(0) + [{"n": 3, "nb": 2, "t": 0, "var": "AT", "gone": 1}],
         thorough=jobs(1) + [{"n": k, "nb": 2, "t": t, "var": "AT", "gone": 1} for k in (3, 4) for t in (0, 2)],
         nonlinear=True, time=250)
def spike(c, p):
    n, nb = p["n"], p["nb"]
    var = p.get("var", "SST")
    v, rs, dist, ts = voyage(c, n, p)
    x = []
    for i, r in enumerate(rs):
        r.set_qc(var, "spike", 1)
        if p.get("gone") and c.flag("gone%d" % i):
            x.append(None)
        else:
            x.append(c.float("x%d" % i, -50.0, 50.0))
            r.setvar(var, x[-1])
    ship, buoy = c.float("ship", 0.0, 20.0), c.float("buoy", 0.0, 20.0)
    gs = c.float("gs", 0.0, 10.0) if n < 3 else 0.5
    gt = c.float("gt", 0.0, 10.0)
    v.spike_check({"max_gradient_space": gs, "max_gradient_time": gt, "ship_delta_t": ship, "buoy_delta_t": buoy,
                   "number_of_neighbours": nb}, intype=var)
    dt = buoy if p.get("pt", 5) in (6, 7) else ship

    def apart(i, j):
        if x[i] is None or x[j] is None:
            return False
        d = abs(x[i] - x[j])
        return d > dt and d > gs * dist(i, 0, j, 0) and d > gt * abs(ts[i] - ts[j])
    viol = [[j for j in range(n) if j != i and abs(i - j) <= nb and apart(i, j)] for i in range(n)]
    c.require(len(v) == n, "no report is lost")
    judge(c, rs, viol, [r.get_qc(var, "spike") for r in rs])
    for i in range(n):
        c.require(x[i] is not None or rs[i].get_qc(var, "spike") == 0, "a missing value is no spike")
