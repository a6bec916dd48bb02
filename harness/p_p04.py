"""Time arithmetic: Julian days, time differences, the day test."""
from api import harness
import qc
import spec
import math

BOUNDS = "years 1..4000, every date; hours: every real in [0, 24) or missing; time_since 0..12 h; sun elevation: an "\
         "arbitrary function of the instant and place asked for"
ASSUMPTIONS = ["sunangle is an uninterpreted function; hours as exact reals"]


def date(c, n, lo=1, hi=4000):
    y, m, d = c.int("y" + n, lo, hi), c.int("m" + n, 1, 12), c.int("d" + n, 1, 31)
    c.assume(d <= spec.month_len(y, m))
    return y, m, d


@harness(quick=[{}])
def julian(c, p):
    y, m, d = date(c, "")
    j = qc.jul_day(y, m, d)
    c.observe("j", j)
    c.require(j == spec.ordinal(y, m, d) + 1721425, "jul_day is the Julian day number")


@harness(quick=[{}])
def difference(c, p):
    a, b = date(c, "1"), date(c, "2")
    h1 = c.opt("h1", lambda n: c.float(n, 0.0, 24.0))
    h2 = c.opt("h2", lambda n: c.float(n, 0.0, 24.0))
    if h1 is not None:
        c.assume(h1 < 24.0)
    if h2 is not None:
        c.assume(h2 < 24.0)
    t = qc.time_difference(a[0], a[1], a[2], h1, b[0], b[1], b[2], h2)
    c.observe("t", t)
    if h1 is None or h2 is None:
        c.require(t is None, "no time difference without both hours")
    else:
        want = 24 * (qc.jul_day(b[0], b[1], b[2]) - qc.jul_day(a[0], a[1], a[2])) + h2 - h1
        c.require(c.close(t, want), "the time difference is the elapsed hours, negative backwards")


@harness(quick=[{}])
def daylight(c, p):
    y, m, d = date(c, "", 1700, 2200)
    h = c.float("h", 0.0, 24.0)
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 360.0)
    since = c.float("since", 0.0, 12.0) if c.flag("since?") else None
    asked = []

    def sun(year, day, hour, minute, sec, zone, dst, la, lo):
        e = c.uf("elevation", year, day, hour, minute, la, lo, lo=-90.0, hi=90.0)
        asked.append((year, day, hour, minute, sec, zone, dst, la, lo, e))
        return 0.0, e, 0.0, 0.0, 0.0, 0.0

    c.patch(qc, "sunangle", sun)
    r = qc.day_test(y, m, d, h, lat, lon) if since is None else qc.day_test(y, m, d, h, lat, lon, since)
    back = 1.0 if since is None else since
    c.observe("r", r)
    c.require(len(asked) == 1, "the sun is asked for once")
    year, day, hour, minute, sec, zone, dst, la, lo, e = asked[0]
    c.require((r == 1) == (e > 0), "day exactly when the sun was above the horizon then")
    c.require(r == 0 or r == 1, "0 or 1")
    c.require(c.close(la, lat) or (lat == 0 and abs(la) <= 0.01), "at the latitude of the report")
    c.require(c.close(lo, lon) or (lon == 0 and abs(lo) <= 0.01), "at the longitude of the report")
    c.require(sec == 0 and zone == 0 and dst == 0, "in UTC")
    then = 24 * (spec.ordinal(year, 1, 1) + day - 1) + hour + minute / 60.0
    now = 24 * spec.ordinal(y, m, d) + h
    c.require(c.close(now - then, back), "at the instant the given number of hours before the report")
    c.require(hour >= 0 and hour <= 24 and minute >= 0 and minute < 60, "as a time of day")
    c.require(day >= 1 and day <= spec.day_of_year(year, 12, 31), "on a day of that year")
