"""Distances, courses and points on the sphere."""
import math
from api import again, harness
import spherical_geometry as sph

BOUNDS = "every pair of positions with latitudes in [-90, 90] and longitudes in [-180, 180] (and whole turns more), every course in "\
         "[0, 360] and distance up to half the circumference; courses from within 1e-7 of a pole and points between antipodes "\
         "only as far as stated"
ASSUMPTIONS = ["exact reals: an angle is a number with a point on the unit circle, sums follow the addition formulas, the arcus "
               "functions are the inverses in their ranges; rounding is outside",
               "counterexamples are sought at rational points of the circle"]
R = 6371.0088
DEG = math.pi / 180.0


def trig(c):
    if c.symbolic:
        return c.trig.sin, c.trig.cos
    return math.sin, math.cos


class Place:
    def __init__(self, c, name):
        self.lat = c.angle(name + "lat", -90.0, 90.0)
        self.lon = c.angle(name + "lon", -180.0, 180.0)
        self.xyz = vec(c, self.lat, self.lon)


def vec(c, lat, lon):
    sin, cos = trig(c)
    a, o = lat * DEG, lon * DEG
    return cos(a) * cos(o), cos(a) * sin(o), sin(a)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cosine(c, x):
    return trig(c)[1](x)


@harness(quick=[{"turn": 0}, {"turn": 360}], thorough=[{"turn": k} for k in (0, 360, -360, 720)], nonlinear=True, time=100)
def distance(c, p):
    a, b = Place(c, "a"), Place(c, "b")
    d = sph.sphere_distance(a.lat, a.lon, b.lat, b.lon + p["turn"])
    c.require(d >= 0 and d <= math.pi * R + 1e-6, "between nothing and half the way round")
    c.require(c.same(cosine(c, d / R), dot(a.xyz, b.xyz)), "the angle between the two directions times the radius of the earth")
    e = sph.angular_distance(a.lat, a.lon, b.lat, b.lon + p["turn"])
    c.require(c.close(e * R, d), "the angular distance is the distance on the unit sphere")
    f = sph.sphere_distance(b.lat, b.lon + p["turn"], a.lat, a.lon)
    c.require(c.same(cosine(c, f / R), dot(a.xyz, b.xyz)), "the same both ways")


def frame(a, b):
    """The northward and eastward parts, at a, of the direction to b (times the sine of the distance)."""
    def run(c):
        sin, cos = trig(c)
        la, lb, dl = a.lat * DEG, b.lat * DEG, b.lon * DEG - a.lon * DEG
        return cos(la) * sin(lb) - sin(la) * cos(lb) * cos(dl), cos(lb) * sin(dl)
    return run


@harness(quick=[{}], nonlinear=True, time=150)
def course(c, p):
    a, b = Place(c, "a"), Place(c, "b")
    sin, cos = trig(c)
    d = sph.angular_distance(a.lat, a.lon, b.lat, b.lon)
    c.assume(sin(d) > 0)
    c.assume(cos(a.lat * DEG) > 0)
    n, e = frame(a, b)(c)
    t = sph.course_between_points(a.lat, a.lon, b.lat, b.lon)
    c.require(t >= 0 and t <= 360 + 1e-6, "between 0 and 360")
    if cos(a.lat * DEG) < 1e-7:
        w = 180.0 if a.lat > 0 else 360.0
        c.require(t >= w - 1e-6 and t <= w + 1e-6, "away from the pole")
        return
    c.require(c.same(cos(t * DEG) * sin(d), n), "the northward part")
    s = sin(t * DEG) * sin(d)
    c.require(c.same(s * s, e * e), "the eastward part")
    if e > 0:
        c.require(t <= 180 + 1e-6, "east is right of north")
    elif e < 0:
        c.require(t >= 180 - 1e-6, "west is left of north")


@harness(quick=[{}])
def nowhere(c, p):
    la, lo = c.angle("lat", -90.0, 90.0), c.angle("lon", -180.0, 180.0)
    c.require(sph.course_between_points(la, lo, la, lo) == 0, "no course to where one is")
    r = sph.intermediate_point(la, lo, la, lo, c.float("f", 0.0, 1.0))
    c.require(c.close(r[0], la) and c.close(r[1], lo), "nothing in between")
    c.require(sph.sphere_distance(la, lo, la, lo) == 0, "no distance to where one is")


@harness(quick=[{"turn": 0}, {"turn": 360}], thorough=[{"turn": 0}, {"turn": 360}, {"turn": -360}], nonlinear=True, time=150)
def destination(c, p):
    a = Place(c, "a")
    sin, cos = trig(c)
    t = c.angle("course", 0.0, 360.0)
    d = c.angle("d", 0.0, math.pi * R, 1.0 / R)
    lat, lon = sph.lat_lon_from_course_and_distance(a.lat, a.lon + p["turn"], t, d)
    u, o = lat * DEG, lon * DEG - a.lon * DEG
    r, s, k = d / R, a.lat * DEG, t * DEG
    c.require(lat >= -90 - 1e-6 and lat <= 90 + 1e-6 and lon >= -180 - 1e-6 and lon <= 180 + 1e-6, "a position")
    c.require(c.same(sin(u), sin(s) * cos(r) + cos(s) * sin(r) * cos(k)), "as far north as the course and distance say")
    if cos(s) < 1e-7 or cos(u) < 1e-7:
        return
    c.require(c.same(cos(u) * sin(o), sin(r) * sin(k)), "as far east as the course and distance say")
    c.require(c.same(cos(u) * cos(o), cos(s) * cos(r) - sin(s) * sin(r) * cos(k)), "on the right side")


@harness(quick=[{"f": 0.5}, {"f": None}], nonlinear=True, time=150)
def between(c, p):
    a, b = Place(c, "a"), Place(c, "b")
    sin, cos = trig(c)
    f = c.float("f", 0.0, 1.0) if p["f"] is None else p["f"]
    d = sph.angular_distance(a.lat, a.lon, b.lat, b.lon)
    c.assume(sin(d) > 0)
    lat, lon = sph.intermediate_point(a.lat, a.lon, b.lat, b.lon, f)
    c.require(lat >= -90 - 1e-6 and lat <= 90 + 1e-6 and lon >= -180 - 1e-6 and lon <= 180 + 1e-6, "a position")
    if cos(lat * DEG) < 1e-7:
        return
    x = vec(c, lat, lon)
    c.require(c.same(dot(a.xyz, x), cos(f * d)), "the fraction of the way from the first point")
    c.require(c.same(dot(b.xyz, x), cos((1 - f) * d)), "the rest of the way to the second point")


again("nowhere", quick=[{}])
