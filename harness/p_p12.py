"""The report as a data holder: variables, date-time, anomalies, flags, derived course and speed."""
from api import again, harness
import Extended_IMMA as ex
import rep as R
import spec

BOUNDS = "every variable, every real in [-1e5, 1e5] (integer variables: -10^5..10^5, dates around the valid range) or "\
         "missing; up to two (dates: three) changes of a report; flag values -5..15 of the flags of all blocks written out"
ASSUMPTIONS = ["wind and ship codes DS and VS are 0..9 or missing"]

INTS = ("YR", "MO", "DY", "DS", "VS", "DCK", "PT", "SID")
TIME = ("YR", "MO", "DY", "HR")


def some(c, n, label):
    """a value for the variable n"""
    if n in ("ID", "UID"):
        return c.str(label, 0, 2)
    if n == "YR":
        return c.int(label, 1, 4000)
    if n == "MO":
        return c.int(label, -2, 14)
    if n == "DY":
        return c.int(label, -2, 33)
    if n == "HR":
        return c.float(label, -2.0, 26.0)
    if n in ("DS", "VS"):
        return c.int(label, 0, 9)
    if n in INTS:
        return c.int(label, -100000, 100000)
    return c.float(label, -100000.0, 100000.0)


def none(n):
    return None if n in ("ID", "UID") else float("nan")


def names():
    return list(ex.VARLIST) + ["ID", "UID"]


def same(c, a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


@harness(quick=[{}], time=120)
def variables(c, p):
    """what is set is read, and nothing else changes"""
    a = c.choice("a", names())
    r = R.report()
    c.require(r.getvar("ID") is None and r.getvar("UID") is None, "a report without identifiers has none")
    for n in names():
        c.require(r.getvar(n) is None, "an empty report has no values")
    v = some(c, a, "v") if c.flag("there") else None
    r.setvar(a, none(a) if v is None else v)
    got = r.getvar(a)
    c.observe("got", got)
    c.require(same(c, got, v), "a variable reads as it was set")
    for n in names():
        if n != a:
            c.require(r.getvar(n) is None, "setting one variable leaves the others")
    b = c.choice("b", names())
    w = some(c, b, "w")
    r.setvar(b, w)
    c.require(same(c, r.getvar(b), w), "a variable reads as it was set last")
    if a != b:
        c.require(same(c, r.getvar(a), v), "setting one variable leaves the others")


@harness(quick=[{}], time=100)
def from_record(c, p):
    """a report takes over what the record has, missing things included"""
    k = c.choice("k", names())
    how = c.choice("how", ["there", "none", "left out"])
    fixed = {"YR": 1980, "MO": 2, "DY": 29, "HR": 12.5, "ID": "AB", "UID": "CD", "DS": 3, "VS": 2}
    v = {}
    for n in names():
        v[n] = fixed[n] if n in fixed and n != k else some(c, n, "v" + n)
    if how != "there":
        v[k] = None
    r = R.report(XYZ=3.0, **{n: v[n] for n in v if not (how == "left out" and n == k)})
    for n in names():
        c.require(same(c, r.getvar(n), v[n]), "the report has the record's value")
    c.require(r.getvar("XYZ") is None, "a variable a report has no place for is not there")


@harness(quick=[{"first": k} for k in TIME], thorough=[{"first": k, "second": j} for k in TIME for j in TIME], time=150)
def datetime_follows(c, p):
    """the date-time is that of the report, after every change"""
    r = R.report(**{n: v for n, v in (("YR", 1980), ("MO", 2), ("DY", 29), ("HR", 12.5))})
    now = {"YR": 1980, "MO": 2, "DY": 29, "HR": 12.5}
    for i, n in enumerate([p["first"], p["second"]] if "second" in p else [p["first"], None]):
        n = n if n is not None else c.choice("second", list(TIME))
        v = some(c, n, "v%d" % i) if c.flag("there%d" % i) else None
        now[n] = v
        r.setvar(n, none(n) if v is None else v)
        check_dt(c, r, now)


def check_dt(c, r, now):
    y, m, d, h = (now[n] for n in TIME)
    ok = y is not None and m is not None and d is not None and h is not None
    if ok:
        ok = bool(spec.valid_date(y, m, d) and h >= 0 and h < 24)
    if not ok:
        c.require(r.dt is None, "no date-time without a complete, existing one")
        return
    c.require(r.dt is not None, "a complete, existing date and hour give a date-time")
    c.require(r.dt.year == y and r.dt.month == m and r.dt.day == d, "the date of the report")
    c.require(r.dt.second == 0, "whole minutes")
    t = r.dt.hour * 60 + r.dt.minute
    c.require(t <= h * 60 and h * 60 < t + 1, "the minute of the report")


@harness(quick=[{}], time=60)
def datetime_built(c, p):
    now = {n: (some(c, n, n) if c.flag(n + "?") else None) for n in TIME}
    r = R.report(**now)
    check_dt(c, r, now)


@harness(quick=[{}], time=60)
def anomalies(c, p):
    n = c.choice("n", ["SST", "AT", "DPT", "SLP", "AT2"])
    o = "AT" if n == "SST" else "SST"
    r = R.report()
    x = c.npfloat(c.float("x", -1000.0, 1100.0)) if c.flag("x?") else None
    y = c.float("y", -1000.0, 1100.0)
    r.setvar(n, none(n) if x is None else x)
    r.setvar(o, y)
    c.require(r.getnorm(n) is None and r.getanom(n) is None and r.get_normalised_anom(n) is None,
              "no anomaly without a climatology")
    cl = c.opt("clim", lambda k: c.float(k, -1000.0, 1100.0))
    sd = c.opt("sd", lambda k: c.float(k, 0.01, 100.0))
    r.add_climate_variable(n, cl, sd)
    r.add_climate_variable(o, c.float("oc", -1000.0, 1100.0), 1.0)
    c.require(same(c, r.getnorm(n), cl) and same(c, r.getnorm(n, "clim"), cl), "the climatology")
    c.require(same(c, r.getnorm(n, "stdev"), sd), "the standard deviation")
    a = r.getanom(n)
    c.require((a is None) == (x is None or cl is None), "an anomaly exactly when there are a value and a normal")
    if a is not None:
        c.require(c.close(a, x - cl), "the anomaly is the value less its normal")
    b = r.get_normalised_anom(n)
    c.require((b is None) == (x is None or cl is None or sd is None), "normalised exactly when everything is there")
    if b is not None:
        c.require(c.close(b * sd, x - cl), "the normalised anomaly is in standard deviations")
    c.require(same(c, r.getvar(n), x) and r.getvar(o) == y, "the data stay")
    if x is not None and cl is not None and sd is not None:
        z, cl2 = c.float("z", -1000.0, 1100.0), c.float("clim2", -1000.0, 1100.0)
        r.setvar(n, z)
        c.require(c.close(r.getanom(n), z - cl) and c.close(r.get_normalised_anom(n) * sd, z - cl), "a new value has its own anomaly")
        r.add_climate_variable(n, cl2, 2.0)
        c.require(c.close(r.getanom(n), z - cl2) and c.close(r.get_normalised_anom(n) * 2.0, z - cl2), "and so with a new normal")


KINDS = {"POS": ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track", "few", "ntrk", "land",
                 "drf_agr", "drf_spd"],
         "SST": ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit", "drf_bias", "drf_tail1"],
         "AT": ["bud", "clim", "nonorm", "noval", "mat_blacklist", "rep", "hardlimit"],
         "AT2": ["clim", "noval"], "DAT": ["clim"],
         "DPT": ["bud", "clim", "nonorm", "noval", "hum_blacklist", "ssat", "repsat", "round", "hardlimit"],
         "SLP": ["bud", "clim", "noval"], "W": ["noval", "hardlimit", "consistency", "wind_blacklist"]}
ALL = [(k, n) for k in sorted(KINDS) for n in KINDS[k]]


@harness(quick=[{}], time=120)
def quality_flags(c, p):
    r = R.report()
    a = c.choice("a", ALL)
    for k in ALL:
        c.require(r.get_qc(*k) == 9, "an unset flag is 9")
    v = c.int("v", -5, 15)
    refused = False
    try:
        r.set_qc(a[0], a[1], v)
    except AssertionError:
        refused = True
    c.require(refused == (not (v >= 0 and v <= 9)), "only 0..9 is a flag value")
    for k in ALL:
        if k != a or refused:
            c.require(r.get_qc(*k) == 9, "setting one flag leaves the others")
    if not refused:
        c.require(r.get_qc(*a) == v, "a flag reads as it was set")
        w = c.int("w", 0, 9)
        r.set_qc(a[0], a[1], w)
        c.require(r.get_qc(*a) == w, "a flag reads as it was set last")
    refused = False
    try:
        r.set_qc(c.choice("bad", ["XYZ", "", "POSX"]), "x", 0)
    except AssertionError:
        refused = True
    c.require(refused, "an unknown kind of flag is refused")


@harness(quick=[{}], time=60)
def place(c, p):
    la, lo = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 360.0)
    r = R.report(LAT=la, LON=lo)
    c.require(r.lat() == la, "the latitude")
    w = r.lon()
    c.require(w >= -180 and w <= 180 and (w == lo or w == lo - 360), "the longitude, in -180..180")
    c.require(r.getvar("LON") == lo, "the longitude as reported stays")


@harness(quick=[{}], time=60)
def ship_speed(c, p):
    ds = c.opt("ds", lambda n: c.int(n, 0, 9))
    vs = c.opt("vs", lambda n: c.int(n, 0, 9))
    y = c.opt("y", lambda n: c.int(n, 1700, 2100))
    r = R.report(DS=ds, VS=vs, YR=y)
    for again in (0, 1):
        d, v = r.getvar("dsi"), r.getvar("vsi")
        c.require(same(c, r.getext("dsi"), d) and same(c, r.getext("vsi"), v), "read either way")
        if ds is None or ds == 9:
            c.require(d is None, "no course without a code, or with a variable one")
        else:
            c.require(d == 45 * ds, "the course code in degrees")
        if vs is None:
            c.require(v is None, "no speed without a code")
        elif vs == 0:
            c.require(v == 0, "stopped")
        elif y is not None and y >= 1968:
            c.require(v == 5 * vs - 2, "5-knot classes from 1968")
        else:
            c.require(v == 3 * vs - 1, "3-knot classes before")
        r.setext("speed", 3.0)
        c.require(r.getvar("speed") == 3.0, "an extended variable reads as it was set")
        r.reset_ext()
        c.require(r.getvar("speed") is None, "extended variables are dropped")


@harness(quick=[{}], time=60)
def saturation(c, p):
    t = c.opt("t", lambda n: c.float(n, -100.0, 100.0))
    d = c.opt("d", lambda n: c.float(n, -100.0, 100.0))
    r = R.report(AT=t, DPT=d)
    c.require(bool(r.saturated()) == (t is not None and d is not None and bool(t == d)),
              "saturated exactly when dew point and air temperature are there and equal")


again("datetime_built", quick=[{}], time=60)
again("anomalies", quick=[{}], time=60)
again("saturation", quick=[{}], time=60)


@harness(time=100)
def two_reports(c, p):
    """what one report holds has nothing to do with another"""
    first = c.choice("first", ["SST", "ID", "none"])
    r = R.report(**{"SST": {"SST": 12.5}, "ID": {"ID": "SHIP1    "}, "none": {}}[first])
    how = c.choice("how", ["variable", "flag", "extra", "norm", "nothing"])
    v = c.float("v", -50.0, 50.0)
    when = c.flag("before")
    other = R.report(UID="B", DPT=4.0) if when else None
    if how == "variable":
        r.setvar("AT", v)
    elif how == "flag":
        r.set_qc("SST", "bud", 1)
    elif how == "extra":
        r.setext("speed", v)
    elif how == "norm":
        r.add_climate_variable("AT", v, 2.0)
    if not when:
        other = R.report(UID="B", DPT=4.0)
    c.require(other.getvar("UID") == "B" and other.getvar("DPT") == 4.0, "the other report has its own values")
    for n in ("ID", "SST", "AT", "SLP"):
        c.require(other.getvar(n) is None, "and no others")
    c.require(other.get_qc("SST", "bud") == 9, "and no flags")
    c.require(other.getnorm("AT") is None and other.getnorm("AT", "stdev") is None, "and no norms")
    try:
        x = other.getext("speed")
    except AssertionError:
        x = None
    c.require(x is None, "and nothing else")
    other.setvar("AT", 1.0)
    other.set_qc("SST", "bud", 0)
    other.setext("speed", 3.0)
    other.add_climate_variable("AT", 5.0)
    if how == "variable":
        c.require(r.getvar("AT") == v, "the first keeps its own")
    if how == "flag":
        c.require(r.get_qc("SST", "bud") == 1, "the first keeps its own")
    if how == "extra":
        c.require(r.getext("speed") == v, "the first keeps its own")
    if how == "norm":
        c.require(r.getnorm("AT") == v and r.getnorm("AT", "stdev") == 2.0, "the first keeps its own")
    c.require(r.getvar("SST") == (12.5 if first == "SST" else None) if first == "SST" else r.getvar("SST") is None, "what came with it stays")
