"""Climatology lookups: the cell and the time step that a position and a date select."""
from api import again, harness
import numpy as np
import qc
import Climatology as cl
import spec

BOUNDS = "fields of 1, 73 or 365 time steps at 0.25, 0.5, 1 and 5 degrees (0.05 for the OSTIA lookup) with arbitrary "\
         "contents and any cells masked; every latitude in [-90, 90], longitude in [-180, 180] (to 360 where the lookup "\
         "allows it), months and days -100..100; file reading: one 4 x 8 (or 180 x 360) field in every orientation"
ASSUMPTIONS = ["field contents are an uninterpreted function of the indices", "positions are exact reals"]


def check(c, got, field, ix):
    want = field[ix]
    if want is np.ma.masked:
        c.require(got is None, "a masked cell gives no value")
    else:
        c.require(got is not None, "an unmasked cell gives a value")
        c.require(got == want, "the value of the cell at that place and date")


def tstep(n, m, d):
    return 0 if n == 1 else (spec.pentad(m, d) - 1 if n == 73 else spec.doy365(m, d) - 1)


SH = [{"n": n, "res": r} for n in (1, 73, 365) for r in (1, 0.5, 0.25, 5)]


@harness(quick=SH, time=90)
def value(c, p):
    n, res = p["n"], p["res"]
    ny, nx = int(180 // res), int(360 // res)
    f = c.field("f", (n, ny, nx), -100.0, 100.0)
    k = cl.Climatology(f)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    m, d = c.int("m", -100, 100), c.int("d", -100, 100)
    r = k.get_value(lat, lon, m, d)
    if spec.valid_date(2004, m, d):
        check(c, r, f, (tstep(n, m, d), spec.row_south(lat, res, ny), spec.col_east(lon, res, nx)))
    else:
        c.require(r is None, "no value for a date that does not exist")


@harness(quick=[{"n": 1}, {"n": 73}, {"n": 365}], time=90)
def value_mds(c, p):
    n = p["n"]
    f = c.field("f", (n, 180, 360), -100.0, 100.0)
    k = cl.Climatology(f)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    m, d = c.int("m", -100, 100), c.int("d", -100, 100)
    r = k.get_value_mds_style(lat, lon, m, d)
    if spec.valid_date(2004, m, d):
        check(c, r, f, (tstep(n, m, d), spec.row_out(lat, 1.0, 180), spec.col_out(lon, 1.0, 360)))
    else:
        c.require(r is None, "no value for a date that does not exist")


@harness(quick=[{}], time=90)
def value_ostia(c, p):
    f = c.field("f", (1, 3600, 7200), -100.0, 100.0)
    k = cl.Climatology(f)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    check(c, k.get_value_ostia(lat, lon), f, (0, spec.row_out(lat, 0.05, 3600), spec.col_out(lon, 0.05, 7200)))


@harness(quick=[{"n": 1}, {"n": 73}, {"n": 365}, {"n": 2}, {"n": 12}])
def shape(c, p):
    n = p["n"]
    f = c.field("f", (n, 36, 72), -100.0, 100.0)
    try:
        k = cl.Climatology(f)
    except AssertionError:
        c.require(n not in (1, 73, 365), "single, pentad and daily fields are accepted")
        return
    c.require(n in (1, 73, 365), "other fields are refused")
    c.require(k.n == n and k.res == 5, "number of time steps and resolution")
    m, d = c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(d <= spec.month_len(2004, m))
    c.require(k.get_tindex(m, d) == tstep(n, m, d), "time step of a date")


class Rep:
    """a report with just a place and a date"""

    def __init__(self, lat, lon, m, d):
        self.v = {"LAT": lat, "LON": lon, "MO": m, "DY": d}

    def lat(self):
        return self.v["LAT"]

    def lon(self):
        return self.v["LON"]

    def getvar(self, k):
        return self.v[k]


@harness(quick=[{"n": 1}, {"n": 73}], time=90)
def sst_field(c, p):
    n = p["n"]
    f = c.field("f", (n, 180, 360), -100.0, 100.0)
    lat = c.float("lat", -90.0, 90.0)
    lon = c.float("lon", -180.0, 360.0)
    m, d = c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(spec.valid_date(2004, m, d))
    r = qc.get_sst(lat, lon, m, d, f)
    ix = (tstep(n, m, d), spec.row_south(lat, 1, 180), spec.col_east(lon, 1, 360))
    check(c, r, f, ix)
    g = qc.get_clim(Rep(lat, lon, m, d), f)
    c.require((g is None) == (r is None), "the report's climatology is missing with the field")
    if r is not None:
        c.require(g == r, "the climatology of a report is the field at its place and date")


@harness(quick=[{}], time=90)
def sst_daily(c, p):
    f = c.field("f", (365, 180, 360), -100.0, 100.0)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    m, d = c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(spec.valid_date(2004, m, d))
    check(c, qc.get_sst_daily(lat, lon, m, d, f), f,
          (tstep(365, m, d), spec.row_out(lat, 1.0, 180), spec.col_out(lon, 1.0, 360)))


@harness(quick=[{}], time=90)
def sst_hires(c, p):
    f = c.field("f", (365, 1, 720, 1440), -999.0, 100.0, masked=False)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 360.0)
    m, d = c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(spec.valid_date(2004, m, d))
    r = qc.get_hires_sst(lat, lon, m, d, f)
    want = f[tstep(365, m, d), 0, spec.row_south(lat, 0.25, 720), spec.col_east(lon, 0.25, 1440)]
    g = qc.get_hires_clim(Rep(lat, lon, m, d), f)
    if want == -999:
        c.require(r is None and g is None, "-999 is no value")
    else:
        c.require(r is not None and g is not None, "a cell with a value gives it")
        c.require(r == want and g == want, "the value of the quarter degree cell on that day")


@harness(quick=[{}], time=60)
def no_place(c, p):
    f = c.field("f", (73, 180, 360), -100.0, 100.0)
    h = c.field("h", (365, 1, 720, 1440), -100.0, 100.0, masked=False)
    rep = Rep(c.opt("lat", lambda n: c.float(n, -200.0, 200.0)), c.opt("lon", lambda n: c.float(n, -180.0, 180.0)),
              c.opt("m", lambda n: c.int(n, -5, 20)), c.opt("d", lambda n: c.int(n, -5, 40)))
    lat, lon, m, d = rep.lat(), rep.lon(), rep.getvar("MO"), rep.getvar("DY")
    ok = lat is not None and lon is not None and m is not None and d is not None
    if ok:
        ok = lat >= -90 and lat <= 90 and spec.valid_date(2004, m, d)
    if not ok:
        c.require(qc.get_clim(rep, f) is None, "no climatology without a valid place and date")
        c.require(qc.get_hires_clim(rep, h) is None, "no daily climatology without a valid place and date")


ORI = [{"flip": a, "roll": b, "tr": t, "lat": la, "lon": lo} for a in (0, 1) for b in (0, 1) for t in (0, 1)
       for la, lo in (("lat", "lon"), ("latitudes", "longitude"))]


@harness(quick=ORI, time=60)
def from_file(c, p):
    ny, nx = (180, 360) if p["tr"] else (4, 8)
    f = c.field("f", (1, ny, nx), -100.0, 100.0)       # rows from 90N, columns from 180W
    g = f
    lats = [90.0 - 180.0 * (i + 0.5) / ny for i in range(ny)]
    lons = [-180.0 + 360.0 * (i + 0.5) / nx for i in range(nx)]
    if p["flip"]:
        g = np.flip(g, 1)
        lats = lats[::-1]
    if p["roll"]:
        g = np.roll(g, nx // 2, axis=2)
        lons = [0.5 + x for x in range(nx)]
    if p["tr"]:
        g = g.transpose(0, 2, 1)
    closed = []

    class Var:
        def __init__(self, a):
            self.a = a

        def __getitem__(self, i):
            return self.a

    class Data:
        def __init__(self, name):
            c.require(name == "some.nc", "reads the file it is given")
            self.variables = {"sst": Var(g), p["lat"]: Var(lats), p["lon"]: Var(lons)}

        def close(self):
            closed.append(1)

    c.patch(cl, "Dataset", Data)
    k = cl.Climatology.from_filename("some.nc", "sst")
    c.require(k.n == 1 and k.field.shape == (1, ny, nx), "one field, latitude before longitude")
    j, i = c.int("j", 0, ny - 1), c.int("i", 0, nx - 1)
    check(c, val(k.field[0, j, i]), f, (0, j, i))


def val(x):
    return None if x is np.ma.masked else x


@harness(quick=[{}], time=60)
def no_file(c, p):
    k = cl.Climatology.from_filename(None, "sst")
    c.require(k.n == 1 and abs(k.res - 0.05) < 1e-9, "without a file: one field at 0.05 degrees")


@harness(quick=[{"n": n, "m": m} for n, m in ((73, 365), (365, 365), (1, 73), (365, 73))], time=90)
def one_after_another(c, p):
    """what was looked up before makes no difference"""
    for i, n in enumerate((p["n"], p["m"])):
        f = c.field("f%d" % i, (n, 36, 72), -100.0, 100.0, masked=False)
        m, d = c.int("m%d" % i, 1, 12), c.int("d%d" % i, 1, 31)
        c.assume(d <= spec.month_len(2004, m))
        k = cl.Climatology(f)
        lat, lon = (12.5, 57.5), (-33.0, 147.0)
        check(c, k.get_value(lat[i], lon[i], m, d), f, (tstep(n, m, d), spec.row_south(lat[i], 5, 36), spec.col_east(lon[i], 5, 72)))


@harness(quick=[{"n": 365}, {"n": 73}], time=90)
def places(c, p):
    """nor the places looked up before"""
    n = p["n"]
    f = c.field("f", (n, 36, 72), -100.0, 100.0)
    k = cl.Climatology(f)
    for i in range(2):
        lat, lon = c.float("lat%d" % i, -90.0, 90.0), c.float("lon%d" % i, -180.0, 180.0)
        check(c, k.get_value(lat, lon, 3, 5 + i), f, (tstep(n, 3, 5 + i), spec.row_south(lat, 5, 36), spec.col_east(lon, 5, 72)))
