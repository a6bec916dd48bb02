"""Drifting buoys that have run aground."""
from api import again, harness
import Extended_IMMA as ex
import trackqc as tqc
import rep as R

BOUNDS = "records of 0..6 reports (thorough: 7) with any gaps between them, smoothing windows of 1, 3 and 5 reports, periods of "\
         "1..3 days, any positions"
ASSUMPTIONS = ["the distance between two positions is an arbitrary non-negative function of them",
               "positions and time differences are present"]


def buoy(c, n, positions=False, pt=7):
    """a time-sorted record of a buoy: any gaps, and positions that are distinct or arbitrary"""
    reps, hrs = [], []
    for i in range(n):
        lat = c.float("lat%d" % i, -90.0, 90.0) if positions else float(i)
        lon = c.float("lon%d" % i, -180.0, 180.0) if positions else float(2 * i)
        r = R.report(ID="1234567", UID=str(i), YR=2003, MO=1, DY=1 + i, HR=0.0, LAT=lat, LON=lon, PT=pt)
        r.set_qc("POS", "drf_agr", 7)
        r.set_qc("POS", "drf_spd", 7)
        gap = 0.0
        if i:
            gap = c.float("gap%d" % i, 0.0, 200.0)
            r.setext("time_diff", gap)
        hrs.append(gap if i == 0 else hrs[-1] + gap)
        reps.append(r)
    return reps, hrs


def distance(c):
    def dist(a, b, x, y):
        return c.uf("distance", a, b, x, y, lo=0.0, hi=20000.0)
    c.patch(tqc, "sphere_distance", dist)
    return dist


def median(xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(i):
            if xs[i] < xs[j]:
                xs[i], xs[j] = xs[j], xs[i]
    return xs[len(xs) // 2]


def aground_from(n, half, lat, lon, t, least, most, dist, tol):
    """the first report deemed aground, or n"""
    start = None
    for i in range(len(t)):
        if t[-1] - t[i] < least:
            break
        j = len(t) - 1
        if most is not None:
            while t[j] > t[i] + most:
                j -= 1
        if t[j] - t[i] < least:
            continue
        if dist(lat[i], lon[i], lat[j], lon[j]) <= tol:
            start = i if start is None else start
        else:
            start = None
    if start is None:
        return n
    return start + half if start > 0 else 0


def jobs(deep):
    out = [{"n": 0, "w": 1}, {"n": 1, "w": 1}, {"n": 1, "w": 3}, {"n": 2, "w": 1, "min": 2, "max": 2}, {"n": 3, "w": 3},
           {"n": 4, "w": 1, "min": 1, "max": 2}, {"n": 5, "w": 1, "min": 2, "max": 3}, {"n": 4, "w": 3, "pos": 1},
           {"n": 5, "w": 3, "min": 1, "max": 1}, {"n": 6, "w": 3, "min": 1, "max": 2}, {"n": 6, "w": 5}]
    if deep:
        out += [{"n": 6, "w": 1, "min": 2, "max": 3}, {"n": 7, "w": 3, "min": 2, "max": 3}, {"n": 5, "w": 3, "pos": 1},
                {"n": 7, "w": 5, "min": 1, "max": 2}]
    return out


def judge(c, p, most):
    n, w, least = p["n"], p["w"], p.get("min", 1)
    reps, hrs = buoy(c, n, p.get("pos"))
    dist = distance(c)
    if most is None:
        tqc.new_aground_check(reps, w, least)
    else:
        tqc.aground_check(reps, w, least, most)
    got = [r.get_qc("POS", "drf_agr") for r in reps]
    first = n
    if n > w:
        half = w // 2
        lat = [median(r.getvar("LAT") for r in reps[k:k + w]) for k in range(n - w + 1)]
        lon = [median(r.getvar("LON") for r in reps[k:k + w]) for k in range(n - w + 1)]
        first = aground_from(n, half, lat, lon, hrs[half:n - half], least * 24.0, None if most is None else most * 24.0,
                             dist, dist(0, 0, 0.01, 0.01))
    else:
        c.require(all(g == 0 for g in got), "records no longer than the smoothing window pass")
    for i in range(n):
        c.require(got[i] == (1 if i >= first else 0),
                  "aground from the start of the last unbroken stretch without movement to the end")


@harness(quick=jobs(0), thorough=jobs(1), nonlinear=True, time=150)
def aground(c, p):
    judge(c, p, p.get("max", 2))


@harness(quick=jobs(0), thorough=jobs(1), nonlinear=True, time=150)
def to_the_end(c, p):
    judge(c, p, None)


@harness(quick=[{"w": "old"}, {"w": "new"}], time=60)
def voyage(c, p):
    """through the voyage: drifters only, the reports of the voyage in order, and missing data refused"""
    pt = c.opt("pt", lambda k: c.int(k, 0, 20))
    gone = c.int("gone", 0, 3)
    reps, hrs = buoy(c, 4, pt=7)
    distance(c)
    v = ex.Voyage()
    v.reps = reps
    reps[0].setvar("PT", pt)
    if gone == 1:
        reps[1].setvar("LAT", None)
    elif gone == 2:
        reps[2].setvar("LON", None)
    elif gone == 3:
        reps[3].setext("time_diff", None)
    par = {"smooth_win": 1, "min_win_period": 1, "max_win_period": 2}
    try:
        if p["w"] == "old":
            v.buoy_aground_check(par, sort=False)
        else:
            v.new_buoy_aground_check(par, sort=False)
        done = True
    except AssertionError:
        done = False
    drifter = pt is not None and pt == 7
    c.require(done == (not drifter or gone == 0), "records with missing positions or times are refused")
    for r in reps:
        f = r.get_qc("POS", "drf_agr")
        if done and drifter:
            c.require(f == 0 or f == 1, "every report of a drifter gets its flag")
        else:
            c.require(f == 7, "other platforms are left alone")


@harness(time=60)
def refuses(c, p):
    w, a, b = c.int("w", -3, 8), c.int("a", -2, 4), c.int("b", -2, 4)
    reps, hrs = buoy(c, 2)
    distance(c)
    ok = w >= 1 and w % 2 == 1 and a >= 1

    def runs(f, *args):
        try:
            f(reps, *args)
            return True
        except AssertionError:
            return False
    c.require(runs(tqc.new_aground_check, w, a) == ok, "odd windows of at least 1 and periods of at least a day")
    c.require(runs(tqc.aground_check, w, a, b) == (ok and b >= a), "odd windows, ascending periods of at least a day")


again("aground", quick=[{"n": 2, "w": 1, "min": 2, "max": 2}, {"n": 3, "w": 1, "min": 1, "max": 2, "then": {"n": 1}}], nonlinear=True, time=100)
