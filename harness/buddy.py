"""Decks laid out on the grid of the buddy checks."""
import math

import Extended_IMMA as ex
import rep as R
import spec

FIRST = {}
for _m in range(1, 13):
    for _d in range(1, 32):
        if spec.valid_date(2003, _m, _d):
            FIRST.setdefault(spec.pentad(_m, _d) - 1, []).append((_m, _d))


class Field:
    """standard deviations of the cells, any value, missing or negative; remembers what it was asked"""

    def __init__(self, c, cells, name="sd", opt=True):
        self.by = {}
        for i, k in enumerate(cells):
            if k not in self.by:
                self.by[k] = None if opt and c.flag("%s_none%d" % (name, i)) else c.float("%s%d" % (name, i), -2.0, 10.0)

    def get_value_mds_style(self, lat, lon, month, day):
        return self.by[int(lon + 179.5), int(89.5 - lat), spec.pentad(month, day) - 1]

    get_value = get_value_mds_style

    def of(self, k):
        x = self.by[k]
        return 1.0 if x is None or x < 0.0 else x


def near(a, b, box):
    """is cell b another cell within the box around cell a"""
    if a == b:
        return False
    dx, dy, dp = abs(a[0] - b[0]), abs(a[1] - b[1]), abs(a[2] - b[2])
    wide = int(box[0] / math.cos(math.radians(89.5 - a[1])))
    return min(dx, 360 - dx) <= wide and dy <= box[1] and min(dp, 73 - dp) <= box[2]


def averages(cells, xs, used):
    groups = {}
    for i, k in enumerate(cells):
        if used[i]:
            groups.setdefault(k, []).append(xs[i])
    return {k: (sum(v) / float(len(v)), len(v)) for k, v in groups.items()}


def place(c, i, cell, inside):
    """a position inside the cell and a date in its pentad"""
    x, y, p = cell
    m, d = FIRST[p][i % len(FIRST[p])]
    if inside:
        lat = 89.5 - y + c.float("la%d" % i, -0.4, 0.4, grid=10)
        lon = x - 179.5 + c.float("lo%d" % i, -0.4, 0.4, grid=10)
    else:
        lat, lon = 89.5 - y, x - 179.5
    if i % 2 and lon < 0:
        lon = lon + 360.0
    return lat, lon, m, d


def layout(c, p):
    base = p["base"]
    cells = [tuple(base)]
    for i, o in enumerate(p["others"]):
        if o == "any":
            mx, my, mp = p.get("span", (3, 2, 5))
            o = (c.int("dx%d" % i, -mx, mx), c.int("dy%d" % i, -my, my), c.int("dp%d" % i, -mp, mp))
            c.assume((base[1] + o[1] >= 0) & (base[1] + o[1] <= 179))
            o = tuple(c.concretise(k) for k in o)
        cells.append(((base[0] + o[0]) % 360, base[1] + o[1], (base[2] + o[2]) % 73))
    return cells


def deck(c, p, intype):
    cells = layout(c, p)
    d, xs, used = ex.Deck(), [], []
    for i, k in enumerate(cells):
        lat, lon, m, dy = place(c, i, k, p.get("inside"))
        r = R.report(ID="S%d" % i, YR=2003, MO=m, DY=dy, HR=0.0, LAT=lat, LON=lon)
        v = c.float("v%d" % i, -10.0, 40.0)
        r.setvar(intype, v)
        clim = c.float("c%d" % i, -10.0, 40.0) if p.get("clim") else 0.0
        r.add_climate_variable(intype, clim)
        r.set_qc(intype, "bud", 1)
        r.set_qc(intype, "bbud", 7)
        ok = not (p.get("filter") and c.flag("bad%d" % i))
        r.set_qc("POS", "pos", 0 if ok else 1)
        r.set_qc(intype, "noval", 0)
        d.append(r)
        xs.append(v - clim)
        used.append(ok)
    f = ex.QC_filter()
    f.add_qc_filter("POS", "pos", 0)
    f.add_qc_filter(intype, "noval", 0)
    d.add_filter(f)
    return d, cells, xs, used
