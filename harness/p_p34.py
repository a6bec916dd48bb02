"""Where the sun is."""
import math
from api import harness
import qc

BOUNDS = "every date from 1700 to 2200, time of day, zone from -24 to 24 hours, daylight saving up to 2 hours, latitude and longitude"
ASSUMPTIONS = ["exact reals; of sines and cosines of arbitrary angles what is used is that they are periodic, between -1 and 1, "
               "change no faster than the angle, and are undone by the arcus functions"]

DEG = math.pi / 180.0


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def day0(y):
    """days from 1 January 2000 to 1 January of year y"""
    a = y - 1
    return 365 * (y - 2000) + a // 4 - a // 100 + a // 400 - 484


def moment(c, p):
    if "rest" in p:
        # the last day of a year; the floors of the calendar come out of themselves
        quad = c.int("quad", 1, 23) if p["quad"] is None else p["quad"]
        y = 400 * c.int("era", 4, 5) + 100 * p["century"] + 4 * quad + p["rest"]
        d = 366 if p["rest"] == 0 and (p["quad"] != 0 or p["century"] == 0) else 365
    else:
        y, d = c.int("year", *p["years"]), c.int("day", 1, 366)
    c.assume(d <= 365 or leap(y))
    h = c.float("hour", 0.0, 24.0)
    c.assume(h < 24)
    return y, d, h


def turn(c, a, b, tol, most=3):
    """a is b, but for whole turns and tol"""
    r = False
    for k in range(-most, most + 1):
        d = a - b - 360.0 * k
        r = (d <= tol) & (d >= -tol) | r
    return r


@harness(quick=[{"years": (y, y + 99)} for y in (1700, 1800, 1900, 2000, 2100)],
         thorough=[{"years": (y, y + 99)} for y in (1600, 1700, 1800, 1900, 2000, 2100, 2200)])
def sidereal(c, p):
    c.facts("opaque")
    y, d, h = moment(c, p)
    lat, lon = 40.0, c.float("lon", -180.0, 360.0)
    zone = c.float("zone", -24.0, 24.0)
    az, el, ra, ha, sid, dec = qc.sunangle(y, d, h, 0, 0, zone, 0, lat, lon)
    n = day0(y) + (d - 1) + (h + zone) / 24.0 - 0.5
    want = 280.46061837 + 0.98564736629 * n - 360.0 * (y - 2000) + 360.0 * ((h + zone) / 24.0 - 0.5) + lon
    c.require(turn(c, sid, want, 0.02, 6), "the local sidereal time of the almanac")
    c.require(turn(c, ha, sid - ra, 1e-6), "the hour angle is sidereal time less right ascension")
    c.require(0 <= ra and ra <= 360, "right ascension goes round once")


def heaven(y, d, hours):
    """Longitude of the sun and tilt of the ecliptic in radians, from the almanac's low-precision formulae."""
    n = day0(y) + (d - 1) + hours / 24.0 - 0.5
    g = (357.528 + 360.0 * 19 + 0.9856003 * n) * DEG
    lam = (280.460 + 360.0 * 20 + 0.9856474 * n) * DEG + 1.915 * DEG * math.sin(g) + 0.020 * DEG * math.sin(2 * g)
    eps = (23.439 - 4e-7 * n) * DEG
    return lam, eps


@harness(quick=[{"years": (y, y + 99)} for y in (1700, 1800, 1900, 2000, 2100)], check_ms=10000, query_ms=3000)
def almanac(c, p):
    y, d, h = moment(c, p)
    zone = c.float("zone", -24.0, 24.0)
    c.facts("opaque")
    lam, eps = heaven(y, d, h + zone)
    s = math.sin(lam) * math.sin(eps)
    up, along = math.sin(lam) * math.cos(eps), math.cos(lam)
    az, el, ra, ha, sid, dec = qc.sunangle(y, d, h, 0, 0, zone, 0, 40.0, 0.0)
    sdec, sra, cra = math.sin(dec * DEG), math.sin(ra * DEG), math.cos(ra * DEG)
    c.reveal("near", "arcus", "period")
    c.require((sdec - s <= 0.001) & (s - sdec <= 0.001), "the declination of the almanac")
    off = sra * along - cra * up
    c.require((off <= 0.002) & (off >= -0.002) & (cra * along + sra * up >= -0.002), "the right ascension of the almanac")


@harness(quick=[{"years": (1700, 2199), "lat": lat} for lat in (None, 90.0, -90.0)], check_ms=10000, query_ms=3000)
def horizon(c, p):
    c.facts("opaque")
    y, d, h = moment(c, p)
    lat = c.float("lat", -90.0, 90.0) if p["lat"] is None else p["lat"]
    lon = c.float("lon", -180.0, 360.0)
    az, el, ra, ha, sid, dec = qc.sunangle(y, d, h, 0, 0, 0, 0, lat, lon)
    c.require(-90.000001 <= el and el <= 90.000001, "between the nadir and the zenith")
    c.require(0 <= az and az <= 360, "the azimuth goes round once")
    sphi, cphi = math.sin(lat * DEG), math.cos(lat * DEG)
    sdec, cdec = math.sin(dec * DEG), math.cos(dec * DEG)
    sha, cha = math.sin(ha * DEG), math.cos(ha * DEG)
    sel, cel = math.sin(el * DEG), math.cos(el * DEG)
    saz, caz = math.sin(az * DEG), math.cos(az * DEG)
    c.reveal("period", "arcus")
    want = sphi * sdec + cphi * cdec * cha
    e = sel - want
    c.require((e <= 1e-6) & (e >= -1e-6) | (want > 1) & (sel >= 1) | (want < -1) & (sel <= -1), "the height of the sun")
    c.assume(abs(el - 90) > 0.001)
    # seen from the north eastwards: sin A cos e = - cos dec sin h, and it is north where its height is lower than ...
    e = saz * cel + cdec * sha
    far = (cdec * sha > cel) | (cdec * sha < -cel)
    c.require((e <= 1e-6) & (e >= -1e-6) | far, "the azimuth of the sun, east or west")
    north = sdec - sphi * sel
    c.require((north < 1e-6) | (caz >= -1e-6), "the azimuth of the sun in the north")
    c.require((north > -1e-6) | (caz <= 1e-6), "the azimuth of the sun in the south")


@harness(quick=[{"how": h, "years": (1700, 2199)} for h in ("clock", "evening", "morning", "longitude")] +
         [{"how": "newyear", "century": n, "rest": r, "quad": q} for n, q, r in (
             (3, None, 0), (3, None, 1), (0, None, 2), (3, None, 3), (3, 24, 3), (2, 24, 3), (3, 0, 0), (0, 0, 0))],
         thorough=[{"how": h, "years": (1600, 2399)} for h in ("clock", "evening", "morning", "longitude")] +
         [{"how": "newyear", "century": n, "rest": r, "quad": q} for n in range(4) for r in range(4) for q in (0, None, 24)],
         check_ms=10000, query_ms=3000)
def instant(c, p):
    """The same instant told differently."""
    c.facts("opaque")
    how = p["how"]
    y, d, h = moment(c, p)
    lat, lon = 40.0, c.float("lon", -180.0, 180.0)
    mi = s = zone = dst = 0
    one = (y, d, h)
    if how == "clock":
        mi, s = c.float("minute", 0.0, 60.0), c.float("second", 0.0, 60.0)
        zone, dst = c.float("zone", -24.0, 24.0), c.float("summer", 0.0, 2.0)
        c.assume(mi < 60)
        c.assume(s < 60)
        later = h + mi / 60.0 + s / 3600.0 + zone - dst
        c.assume((later >= 0) & (later < 24))
        one = (y, d, later)
    elif how == "evening":
        zone = c.float("zone", 0.0, 24.0)
        c.assume(h + zone >= 24)
        c.assume((h + zone < 48) & (d <= 364))
        one = (y, d + 1, h + zone - 24)
    elif how == "morning":
        zone = c.float("zone", -24.0, 0.0)
        c.assume((h + zone < 0) & (d >= 2))
        one = (y, d - 1, h + zone + 24)
    elif how == "newyear":
        zone = c.float("zone", 0.0, 24.0)
        c.assume(h + zone >= 24)
        c.assume(h + zone < 48)
        one = (y + 1, 1, h + zone - 24)
    east = lon + 360.0 if how == "longitude" else lon
    a = qc.sunangle(y, d, h, mi, s, zone, dst, lat, lon)
    b = qc.sunangle(one[0], one[1], one[2], 0, 0, 0, 0, lat, east)
    c.reveal("period")
    c.require((a[2] - b[2] <= 1e-6) & (b[2] - a[2] <= 1e-6), "the same right ascension")
    c.require((a[5] - b[5] <= 1e-6) & (b[5] - a[5] <= 1e-6), "the same declination")
    c.require(turn(c, a[3], b[3], 1e-6), "the same hour angle")
    c.require(turn(c, a[4], b[4], 1e-6), "the same sidereal time")
