"""Interpolation of a climatology to the exact place of a report."""
from api import harness
import numpy as np
import qc
import Climatology as cl
import spec

BOUNDS = "every latitude in [-90, 90] and longitude in [-180, 180] (for the "\
         "interpolated lookups: within half a degree of 5, thorough 29, meridians); one degree fields of 1, 73 or 365 steps with arbitrary "\
         "contents in [-100, 100] and any cells masked; every existing date; boxes of one degree (thorough: up to 10 degrees)"
ASSUMPTIONS = ["exact reals", "in the lookup harnesses the bilinear formula is an uninterpreted function of its arguments; "
               "the bilinear harness settles the formula itself"]


@harness(quick=[{"max90": 0}, {"max90": 1}, {"max90": None}], time=60)
def surrounding(c, p):
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    k = p["max90"]
    x1, x2, y1, y2 = qc.get_four_surrounding_points(lat, lon) if k is None else qc.get_four_surrounding_points(lat, lon, k)
    c.observe("b", [x1, x2, y1, y2])
    c.require(x2 == x1 + 1, "neighbouring columns")
    c.require(x1 <= lon and lon <= x2, "the columns bracket the point")
    c.require(x1 + 0.5 == (x1 + 0.5) // 1, "columns are cell centres")
    c.require(y1 + 0.5 == (y1 + 0.5) // 1, "rows are cell centres")
    if k == 0:
        c.require(y2 == y1 + 1, "neighbouring rows")
        c.require(y1 <= lat and lat <= y2, "the rows bracket the point")
    else:
        c.require(y1 >= -89.5 and y2 <= 89.5, "rows exist")
        c.require(y1 <= lat or y1 == -89.5, "the southern row is south of the point or the last")
        c.require(y2 >= lat or y2 == 89.5, "the northern row is north of the point or the first")
        c.require(y2 == y1 + 1 or (y2 == y1 and (lat >= 89.5 or lat <= -89.5)), "neighbouring rows, or the polar row twice")


@harness(quick=[{"unit": 1}], thorough=[{"unit": 1}, {"unit": 0}], nonlinear=True, time=100)
def bilinear(c, p):
    q = [c.float("q%d" % i, -100.0, 100.0) for i in range(4)]
    if p["unit"]:
        x1, y1 = c.choice("x1", [-180.5, -0.5, 10.5]), c.choice("y1", [-90.5, 0.5])
        x2, y2 = x1 + 1, y1 + 1
    else:
        x1, y1 = -3.0, 2.0
        x2, y2 = c.float("x2", -2.0, 7.0), c.float("y2", 3.0, 12.0)
    s, t = c.float("s", 0.0, 1.0), c.float("t", 0.0, 1.0)
    x, y = x1 + s * (x2 - x1), y1 + t * (y2 - y1)
    r = qc.bilinear_interp(x1, x2, y1, y2, x, y, q[0], q[1], q[2], q[3])
    south = q[0] * (1 - s) + q[2] * s
    north = q[1] * (1 - s) + q[3] * s
    c.require(c.close(r, south * (1 - t) + north * t), "linear along each edge and between them")


def ref_fill(q11, q12, q21, q22):
    def one(x, a, b, far):
        if x is not None:
            return x
        if a is not None and b is not None:
            return (a + b) / 2.0
        return a if a is not None else b if b is not None else far
    return (one(q11, q12, q21, q22), one(q12, q11, q22, q21), one(q21, q11, q22, q12), one(q22, q12, q21, q11))


@harness(quick=[{}])
def fill(c, p):
    q = [c.opt("q%d" % i, lambda n: c.float(n, -100.0, 100.0)) for i in range(4)]
    r = qc.fill_missing_vals(q[0], q[1], q[2], q[3])
    w = ref_fill(q[0], q[1], q[2], q[3])
    c.observe("r", list(r))
    for a, b in zip(r, w):
        c.require((a is None) == (b is None), "filled unless nothing is there")
        if a is not None:
            c.require(c.close(a, b), "gaps take the mean of the two neighbours, or of what there is")


@harness(quick=[{"n": 0}, {"n": 1}, {"n": 3}, {"n": 5}])
def mean(c, p):
    v = [c.opt("v%d" % i, lambda n: c.float(n, -100.0, 100.0)) for i in range(p["n"])]
    r = qc.missing_mean(v)
    g = [x for x in v if x is not None]
    if not g:
        c.require(r is None, "no mean of nothing")
    else:
        c.require(c.close(r * len(g), sum(g)), "mean of the values present")


class Block:
    """An n x 180 x 360 field of which only the four cells around a grid corner are ever looked at."""

    def __init__(self, c, n, by, bx, t, q):
        self.c, self.shape, self.t, self.q = c, (n, 180, 360), t, q
        self.row, self.col = 90 - by, 180 + bx        # first row south, first column east of the corner

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, ix):
        if isinstance(ix[0], slice):
            return [0.0] * self.shape[0]
        t, y, x = ix
        if t < 0:
            t = t + self.shape[0]
        self.c.require(y >= 0 and y < 180 and x >= 0 and x < 360, "indices inside the field")
        self.c.require(t == self.t, "the time step of the date")
        if self.row == 0 or self.row == 180:
            north = y == self.row - 1                 # the polar row stands on both sides
        else:
            north = y < self.row
            self.c.require(y == (self.row - 1 if north else self.row), "a row next to the point")
        east = x == self.col or x + 360 == self.col or x == self.col + 360
        self.c.require(east or x == self.col - 1 or x == self.col + 359, "a column next to the point")
        v = (self.q[3] if east else self.q[1]) if north else (self.q[2] if east else self.q[0])
        return np.ma.masked if v is None else self.c.npfloat(v)


def setting(c, p):
    """A grid corner, a point within half a degree of it, a date, the four cells (any of them missing)."""
    n = p["n"]
    by = c.choice("by", p["by"]) if isinstance(p["by"], list) else c.int("by", -89, 89)
    bx = c.choice("bx", p["bx"]) if isinstance(p["bx"], list) else c.int("bx", -179, 179)
    v, u = c.float("v", -0.5, 0.5), c.float("u", -0.5, 0.5)
    c.assume(v < 0.5)
    c.assume(u > -0.5)
    lat, lon = by + u, bx + v
    c.assume(lat >= -90 and lat <= 90 and lon >= -180 and lon <= 180)
    m, d = c.choice("date", [(1, 1), (2, 29), (7, 4), (12, 31)])
    t = 0 if n == 1 else (spec.pentad(m, d) - 1 if n == 73 else spec.doy365(m, d) - 1)
    pole = by == 90 or by == -90
    q = []
    for i in range(4):                                # south west, north west, south east, north east
        q.append(q[i - 1] if pole and i % 2 else c.opt("q%d" % i, lambda s: c.float(s, -100.0, 100.0)))
    return Block(c, n, by, bx, t, q), lat, lon, m, d, by, bx, q


def expected(lat, lon, by, bx, q, bil):
    near = []
    if lat + 0.001 < 90:
        near += [(lat + 0.001 > by, lon + 0.001 >= bx), (lat + 0.001 > by, lon - 0.001 >= bx)]
    if lat - 0.001 > -90:
        near += [(lat - 0.001 > by, lon + 0.001 >= bx), (lat - 0.001 > by, lon - 0.001 >= bx)]
    near = [(q[3] if e else q[1]) if n else (q[2] if e else q[0]) for n, e in near]
    if [x for x in near if x is not None] == []:
        return None
    q = ref_fill(q[0], q[1], q[2], q[3])
    return bil(bx - 0.5, bx + 0.5, by - 0.5, by + 0.5, lon, lat, q[0], q[1], q[2], q[3])


def sym_bil(c):
    if not c.symbolic:
        return qc.bilinear_interp

    def bil(x1, x2, y1, y2, x, y, q11, q12, q21, q22):
        return c.uf("bilinear", x1, x2, y1, y2, x, y, q11, q12, q21, q22)
    c.patch(qc, "bilinear_interp", bil)
    return bil


def compare(c, r, w):
    c.require((r is None) == (w is None), "a value exactly when a cell the point touches has one")
    if r is not None:
        c.require(c.close(r, w), "bilinear between the four surrounding cells")


QUICK = [{"by": y, "bx": [x]} for y in ("all", [-90, 90]) for x in (-180, -1, 0, 57, 180)]
MORE = [{"by": y, "bx": [x]} for y in ("all", [-90, 90]) for x in list(range(-180, 181, 15)) + [-179, -1, 1, 179]]


@harness(quick=[dict(s, n=365) for s in QUICK] + [dict(QUICK[0], n=1)],
         thorough=[dict(s, n=n) for s in MORE for n in (1, 73, 365)], time=150)
def interpolated(c, p):
    f, lat, lon, m, d, by, bx, q = setting(c, p)
    bil = sym_bil(c)
    compare(c, cl.Climatology(f).get_interpolated_value(lat, lon, m, d), expected(lat, lon, by, bx, q, bil))


class Rep:
    def __init__(self, lat, lon, m, d):
        self.v = {"LAT": lat, "LON": lon, "MO": m, "DY": d}

    def lat(self):
        return self.v["LAT"]

    def lon(self):
        return self.v["LON"]

    def getvar(self, k):
        return self.v[k]


@harness(quick=[dict(s, n=n) for s in QUICK for n in (1, 73)], thorough=[dict(s, n=n) for s in MORE for n in (1, 73)],
         time=150)
def of_report(c, p):
    f, lat, lon, m, d, by, bx, q = setting(c, p)
    bil = sym_bil(c)
    compare(c, qc.get_clim_interpolated(Rep(lat, lon, m, d), f), expected(lat, lon, by, bx, q, bil))
