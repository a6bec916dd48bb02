"""Position, time and date validity."""
from api import again, harness
import qc
import spec

BOUNDS = "latitudes and longitudes: every finite double in [-1e4, 1e4]; hours: every double in [-100, 100] or missing; "\
         "years -100..3000, months -20..40, days -40..80 or missing"
ASSUMPTIONS = ["positions are numbers (the checks assert they are not missing)"]


@harness(quick=[{"mode": "fp"}, {"mode": "real"}])
def position(c, p):
    lat, lon = c.float("lat", -10000.0, 10000.0), c.float("lon", -10000.0, 10000.0)
    r = qc.position_check(lat, lon)
    c.observe("r", r)
    c.require((r == 0) == (lat >= -90 and lat <= 90 and lon >= -180 and lon <= 360),
              "passes exactly latitude -90..90 and longitude -180..360")
    c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=[{"mode": "fp"}, {"mode": "real"}])
def hour(c, p):
    h = c.opt("h", lambda n: c.float(n, -100.0, 100.0))
    r = qc.time_check(h)
    c.observe("r", r)
    if h is None:
        c.require(r == 1, "a missing hour fails")
    else:
        c.require((r == 0) == (h >= 0 and h < 24), "passes exactly hours 0 <= h < 24")
        c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=[{}])
def date(c, p):
    y, m = c.int("y", -100, 3000), c.int("m", -20, 40)
    d = c.opt("d", lambda n: c.int(n, -40, 80))
    r = qc.date_check(y, m, d)
    c.observe("r", r)
    c.require(r == 0 or r == 1, "0 or 1")
    if d is None:
        c.require(r == 1, "a missing day fails")
    else:
        if m >= 1 and m <= 12:
            c.require((r == 0) == (y >= 1850 and y <= 2024 and d >= 1 and d <= spec.month_len(y, m)),
                      "passes exactly the calendar dates of 1850 to 2024")
        else:
            c.require(r == 1, "a month that does not exist fails")


again("hour", quick=[{}])
again("date", quick=[{}])
