"""Grid arithmetic: cell index of a position, cell centre of an index."""
from api import again, harness
import qc

BOUNDS = "every latitude in [-90, 90], every longitude in [-180, 180] (border-east rule: every longitude in [-540, 540)),"\
         " resolutions 5, 1, 0.5, 0.25, 0.05 degrees"
ASSUMPTIONS = ["positions and resolutions are exact reals: a position within rounding of a border may fall on either side"]

RES = [{"res": 1}, {"res": 1.0}, {"res": 5}, {"res": 0.5}, {"res": 0.25}, {"res": 0.05}]


def size(res, span):
    return int(round(span / res)) if isinstance(res, float) else span // res


@harness(quick=RES, time=60)
def lat_south(c, p):
    res = p["res"]
    lat = c.float("lat", -90.0, 90.0)
    k = qc.lat_to_yindex(lat) if p.get("d") else qc.lat_to_yindex(lat, res)
    n = size(res, 180)
    c.observe("k", k)
    c.require(k >= 0 and k < n, "row index in range")
    c.require(lat <= 90.0 - k * res, "the row's northern border is not south of the point")
    if k == n - 1:
        c.require(lat >= 90.0 - (k + 1) * res, "the point is in the row")
    else:
        c.require(lat > 90.0 - (k + 1) * res, "borders belong to the row south of them")
    if res == 1:
        c.require(qc.lat_to_yindex(lat) == k, "default resolution is one degree")


@harness(quick=RES, time=60)
def lon_east(c, p):
    res = p["res"]
    lon = c.float("lon", -540.0, 540.0)
    c.assume(lon < 540.0)
    k = qc.lon_to_xindex(lon, res)
    n = size(res, 360)
    c.observe("k", k)
    c.require(k >= 0 and k < n, "column index in range")
    w = lon + 360.0 if lon < -180.0 else (lon - 360.0 if lon >= 180.0 else lon)
    c.require(w >= -180.0 + k * res and w < -180.0 + (k + 1) * res, "borders belong to the column east of them")
    if res == 1:
        c.require(qc.lon_to_xindex(lon) == k, "default resolution is one degree")


@harness(quick=RES, time=60)
def lat_mds(c, p):
    res = p["res"]
    lat = c.float("lat", -90.0, 90.0)
    k = qc.mds_lat_to_yindex(lat, res)
    n = size(res, 180)
    c.observe("k", k)
    c.require(k >= 0 and k < n, "row index in range")
    north, south = 90.0 - k * res, 90.0 - (k + 1) * res
    if lat == 90:
        c.require(k == 0, "90 goes in the northernmost row")
    elif lat == -90:
        c.require(k == n - 1, "-90 goes in the southernmost row")
    elif lat > 0:
        c.require(south <= lat and lat < north, "north of the equator borders go north")
    else:
        c.require(south < lat and lat <= north, "on and south of the equator borders go south")
    if res == 1.0:
        c.require(qc.mds_lat_to_yindex(lat) == k, "default resolution is one degree")


@harness(quick=RES, time=60)
def lon_mds(c, p):
    res = p["res"]
    lon = c.float("lon", -180.0, 180.0)
    k = qc.mds_lon_to_xindex(lon, res)
    n = size(res, 360)
    c.observe("k", k)
    c.require(k >= 0 and k < n, "column index in range")
    west, east = -180.0 + k * res, -180.0 + (k + 1) * res
    if lon == 180:
        c.require(k == n - 1, "180 goes in the easternmost column")
    elif lon == -180:
        c.require(k == 0, "-180 goes in the westernmost column")
    elif lon > 0:
        c.require(west <= lon and lon < east, "east of Greenwich borders go east")
    else:
        c.require(west < lon and lon <= east, "on and west of Greenwich borders go west")
    if res == 1.0:
        c.require(qc.mds_lon_to_xindex(lon) == k, "default resolution is one degree")


@harness(quick=RES, time=60)
def centres(c, p):
    res = p["res"]
    ny, nx = size(res, 180), size(res, 360)
    j, i = c.int("j", 0, ny - 1), c.int("i", 0, nx - 1)
    la, lo = qc.yindex_to_lat(j, res), qc.xindex_to_lon(i, res)
    c.observe("la", la)
    c.observe("lo", lo)
    half = res / 2 if isinstance(res, float) else (res // 2 if p.get("py2") else res / 2.0)
    c.require(c.close(la, 90.0 - j * res - half), "row centre")
    c.require(c.close(lo, -180.0 + i * res + half), "column centre")
    c.require(qc.lat_to_yindex(la, res) == j, "the centre of a row lies in it")
    c.require(qc.lon_to_xindex(lo, res) == i, "the centre of a column lies in it")
    c.require(qc.mds_lat_to_yindex(la, res) == j, "the centre of a row lies in it (borders outwards)")
    c.require(qc.mds_lon_to_xindex(lo, res) == i, "the centre of a column lies in it (borders outwards)")


for _n in ("lat_south", "lon_east", "lat_mds", "lon_mds", "centres"):
    again(_n, quick=[{"res": 1, "then": {"res": 0.5}}, {"res": 5}], time=60)
