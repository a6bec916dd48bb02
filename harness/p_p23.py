"""Drifting buoys that are carried by a ship."""
from api import again, harness
import Extended_IMMA as ex
import trackqc as tqc
import rep as R

BOUNDS = "records of 0..5 reports (thorough: 6) with any gaps between them, any speed limit and distances, periods of several "\
         "lengths, any outcome of the IQUAM screening"
ASSUMPTIONS = ["the distance between two positions is an arbitrary non-negative function of them",
               "positions and time differences are present"]


def buoy(c, n, hours=False):
    reps, hrs = [], []
    for i in range(n):
        r = R.report(ID="1234567", UID=str(i), YR=2003, MO=1, DY=1 + i, HR=0.0, LAT=float(i), LON=float(2 * i), PT=7)
        r.set_qc("POS", "drf_spd", 7)
        r.set_qc("POS", "iquam_track", 3)
        gap = 0.0
        if i:
            gap = c.float("gap%d" % i, 0.0, 100.0)
            r.setext("time_diff", gap)
        hrs.append(gap if i == 0 else hrs[-1] + gap)
        reps.append(r)
    tab = {}

    def dist(a, b, x, y):
        i, j = sorted((int(a), int(x)))
        if i == j:
            return 0.0
        if (i, j) not in tab:
            tab[i, j] = c.float("d%d_%d" % (i, j), 0.0, 20000.0)
        return tab[i, j]
    c.patch(tqc, "sphere_distance", dist)
    return reps, hrs, dist


def too_fast(dist, i, j, t, limit):
    """metres per second"""
    return dist(i, 0, j, 0) * 1000.0 > limit * 3600.0 * (t[j] - t[i])


def judge(c, reps, bad):
    for k, r in enumerate(reps):
        got = r.get_qc("POS", "drf_spd")
        want = any(i <= k <= j for i, j in bad)
        c.require(got == (1 if want else 0), "flagged exactly when part of a stretch that is too fast")


def jobs(deep, most):
    out = [{"n": 0}, {"n": 1}, {"n": 2}, {"n": 3}, {"n": 4, "min": 0.375, "max": 0.5}]
    if most:
        out += [{"n": 4, "min": 0.5, "max": 0.5}, {"n": 3, "min": 1.0, "max": 3.0}]
    out += [{"n": 3, "min": 0.0}, {"n": 2, "min": 0.0, "max": 0.0}]
    if deep:
        out += [{"n": 5}]
    return out


@harness(quick=jobs(0, 1), thorough=jobs(1, 1), nonlinear=True, time=150)
def longest(c, p):
    n, least, most = p["n"], p.get("min", 0.8), p.get("max", 1.0)
    reps, t, dist = buoy(c, n)
    limit = 2.5
    tqc.speed_check(reps, limit, least, most)
    bad = []
    if n > 1:
        for i in range(n):
            if t[-1] - t[i] < least * 24.0:
                break
            j = n - 1
            while t[j] > t[i] + most * 24.0:
                j -= 1
            if t[j] - t[i] >= least * 24.0 and too_fast(dist, i, j, t, limit):
                bad.append((i, j))
    judge(c, reps, bad)
    c.require(len(reps) == n, "no report is lost")


@harness(quick=jobs(0, 0), thorough=jobs(1, 0), nonlinear=True, time=150)
def shortest(c, p):
    n, least = p["n"], p.get("min", 0.375)
    reps, t, dist = buoy(c, n)
    limit = 3.0
    out = [c.flag("iquam%d" % i) for i in range(n)]
    seen = []

    def screen(self, parameters):
        seen.append((parameters, [r.getvar("PT") for r in self.reps], [r.getvar("UID") for r in self.reps]))
        for r, bad in zip(self.reps, out):
            if bad:
                r.set_qc("POS", "iquam_track", 1)
    c.patch(ex.Voyage, "iquam_track_check", screen)
    par = {"some": "parameters"}
    tqc.new_speed_check(reps, par, limit, least)
    if n > 1:
        c.require(len(seen) == 1 and seen[0][0] == par and all(x == 5 for x in seen[0][1])
                  and seen[0][2] == [str(i) for i in range(n)], "screened once, as a ship")
    c.require(all(r.getvar("PT") == 7 and r.get_qc("POS", "iquam_track") == 3 for r in reps),
              "the screening leaves no trace on the reports")
    bad = []
    for i in range(n):
        if out[i]:
            continue
        for j in range(n if least else 0):
            if j != i and not out[j] and t[j] >= t[i] + least * 24.0:
                if too_fast(dist, i, j, t, limit):
                    bad.append((i, j))
                break
    judge(c, reps, bad)


@harness(quick=[{"w": "old"}, {"w": "new"}], time=60)
def voyage(c, p):
    pt = c.opt("pt", lambda k: c.int(k, 0, 20))
    gone = c.int("gone", 0, 3)
    reps, t, dist = buoy(c, 3)
    v = ex.Voyage()
    v.reps = reps
    reps[0].setvar("PT", pt)
    c.patch(ex.Voyage, "iquam_track_check", lambda self, parameters: None)
    if gone == 1:
        reps[1].setvar("LAT", None)
    elif gone == 2:
        reps[2].setvar("LON", None)
    elif gone == 3:
        reps[1].setext("time_diff", None)
    par = {"speed_limit": 3.0, "min_win_period": 0.375, "max_win_period": 1.0}
    try:
        if p["w"] == "old":
            v.buoy_speed_check(par, sort=False)
        else:
            v.new_buoy_speed_check({}, par, sort=False)
        done = True
    except AssertionError:
        done = False
    drifter = pt is not None and pt == 7
    c.require(done == (not drifter or gone == 0), "records with missing positions or times are refused")
    for r in reps:
        f = r.get_qc("POS", "drf_spd")
        if done and drifter:
            c.require(f == 0 or f == 1, "every report of a drifter gets its flag")
        else:
            c.require(f == 7, "other platforms are left alone")


@harness(time=60)
def refuses(c, p):
    limit, a, b = c.float("limit", -2.0, 8.0), c.float("a", -2.0, 4.0), c.float("b", -2.0, 4.0)
    reps, t, dist = buoy(c, 1)

    def runs(f, *args):
        try:
            f(reps, *args)
            return True
        except AssertionError:
            return False
    ok = limit >= 0 and a >= 0
    c.require(runs(tqc.new_speed_check, {}, limit, a) == ok, "speed limit and period are not negative")
    c.require(runs(tqc.speed_check, limit, a, b) == (ok and b >= a), "speed limit and ascending periods are not negative")


again("longest", quick=[{"n": 2}, {"n": 3, "then": {"n": 2}}], nonlinear=True, time=100)
