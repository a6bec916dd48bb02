"""The elements of the track check: modal speed, speed limits, continuity of course and speed, projected positions."""
from api import again, harness
import track_check as tc
import spherical_geometry as sph

BOUNDS = "1 to 4 speeds of -100..500 km/h (thorough: 5); every modal speed 0..100 or missing; reported courses in 45 degree "\
         "steps or missing, reported speeds -10..200 kn or missing, calculated course 0..360, speeds and distances 0..20000 or "\
         "missing, every limit"
ASSUMPTIONS = ["great-circle projection is an arbitrary function (in the increment)"]

KM = 0.539957
DSI = [None, 0, 45, 90, 135, 180, 225, 270, 315, 360]


@harness(quick=[{"n": i} for i in range(4)], thorough=[{"n": i} for i in range(5)], time=200)
def modal(c, p):
    n = p["n"]
    sp = [None] + [c.float("s%d" % i, -100.0, 500.0) for i in range(n)]
    m = tc.modesp(sp)
    if n == 0:
        c.require(m is None and tc.modesp([]) is None, "no modal speed of one report or none")
        return
    bins = []
    for s in sp[1:]:
        k = int(s * KM // 3.0)
        bins.append(c.concretise(0 if k < 0 else 11 if k > 11 else k))
    best = max(bins.count(b) for b in bins)
    b = min(x for x in bins if bins.count(x) == best)
    want = 3.0 * b + 1.5
    c.require(c.close(m * KM, want if want > 8.5 else 8.5), "the centre of the fullest 3-knot bin, at least 8.5 knots")


@harness(quick=[{}])
def limits(c, p):
    m = c.opt("m", lambda n: c.float(n, 0.0, 100.0))
    hi, top, lo = tc.set_speed_limits(m)
    slow = m is None or m <= 8.51 / KM
    if slow:
        c.require(c.close(hi, 15.0 / KM) and c.close(top, 20.0 / KM) and lo == 0, "slow ships: 15 and 20 knots")
    else:
        c.require(c.close(hi, m * 1.25) and c.close(top, 30.0 / KM) and c.close(lo, m * 0.75), "a quarter around the mode")


@harness(quick=[{}], time=60)
def direction(c, p):
    a, b = c.choice("dsi", DSI), c.choice("previous", DSI)
    k = c.opt("course", lambda n: c.float(n, 0.0, 360.0))
    lim = c.float("limit", 0.0, 180.0)
    r = tc.direction_continuity(a, b, k, lim)
    c.require(r == 0 or r == 10, "0 or 10")
    if a is None or b is None or k is None:
        c.require(r == 0, "nothing to compare")
    else:
        def off(x):
            d = abs(x - k)
            return (360.0 - d if d > 180 else d) > lim
        c.require((r == 10) == (off(a) or off(b)), "fails when the ship's course is off either reported one by more")
    c.require(tc.direction_continuity(a, b, k) == tc.direction_continuity(a, b, k, 60.0), "60 degrees by default")


@harness(quick=[{}])
def speed(c, p):
    a = c.opt("vsi", lambda n: c.float(n, -10.0, 200.0))
    b = c.opt("previous", lambda n: c.float(n, -10.0, 200.0))
    s = c.opt("speed", lambda n: c.float(n, 0.0, 20000.0))
    lim = c.float("limit", 0.0, 100.0)
    r = tc.speed_continuity(a, b, s, lim)
    c.require(r == 0 or r == 10, "0 or 10")
    if a is None or b is None or s is None:
        c.require(r == 0, "nothing to compare")
    else:
        c.require((r == 10) == (abs(a / KM - s) > lim / KM and abs(b / KM - s) > lim / KM), "fails when both reported speeds are off")
    c.require(tc.speed_continuity(a, b, s) == tc.speed_continuity(a, b, s, 10.0), "10 knots by default")


@harness(quick=[{}], nonlinear=True)
def estimate(c, p):
    a = c.opt("vsi", lambda n: c.float(n, -10.0, 200.0))
    b = c.opt("previous", lambda n: c.float(n, -10.0, 200.0))
    t = c.opt("t", lambda n: c.float(n, -10.0, 1000.0))
    f, g = c.float("fwd", 0.0, 20000.0), c.float("rev", 0.0, 20000.0)
    r = tc.check_distance_from_estimate(a, b, t, f, g)
    c.require(r == 0 or r == 10, "0 or 10")
    if a is None or b is None or t is None or a <= 0 or b <= 0 or t <= 0:
        c.require(r == 0, "nothing to compare")
    else:
        d = t * (a + b) / 2.0 / KM
        c.require((r == 10) == (f > d and g > d), "fails when both discrepancies exceed the distance sailed")


@harness(quick=[{}], nonlinear=True)
def increment(c, p):
    la, lo = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    v, d = c.float("v", 0.0, 200.0), c.float("d", 0.0, 360.0)
    t = c.opt("t", lambda n: c.float(n, 0.0, 1000.0))

    def ahead(a, b, x, y):
        return c.uf("lat2", a, b, x, y, lo=-90, hi=90), c.uf("lon2", a, b, x, y, lo=-180, hi=180)
    c.patch(sph, "lat_lon_from_course_and_distance", ahead)
    a, b = tc.increment_position(la, lo, v, d, t)
    if t is None:
        c.require(a is None and b is None, "no increment without a time difference")
    else:
        x, y = ahead(la, lo, d, v * t / 2.0)
        c.require(c.close(a, x - la) and c.close(b, y - lo), "half the time at the reported speed on the reported course")


again("speed", quick=[{}], time=60)
again("limits", quick=[{}], time=60)
again("modal", quick=[{"n": 1}], time=60)
