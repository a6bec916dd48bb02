"""Humidity variables from dew point, air temperature and pressure."""
from api import harness
import math
import CalcHums as ch
import Extended_IMMA as ex
import rep as R

BOUNDS = "dew points and pressures from a small set with any air temperature from -60 to 60 (the dew point of the mixing formulas any "\
         "as well; relative humidity: either free, the other from a set), vapour pressures and specific humidities from 0.01 to 120, any rounding"
ASSUMPTIONS = ["the exponential of an unknown argument is an arbitrary positive function of it"]

DEW = [-60.0, -40.0, -25.0, -12.5, -5.0, -0.3, 0.0, 0.4, 3.1, 9.7, 18.0, 31.0, 44.0]
PRES = [870.0, 1013.0]


def factor(p, ice):
    return 1.0 + (3e-4 + 4.18e-6 * p if ice else 7e-4 + 3.46e-6 * p)


def svp(x, p, ice, exp):
    """vapour pressure at dew point x over water or ice (Buck 1981)"""
    if ice:
        return 6.1115 * factor(p, ice) * exp(((23.036 - (x / 333.7)) * x) / (279.82 + x))
    return 6.1121 * factor(p, ice) * exp(((18.729 - (x / 227.3)) * x) / (257.87 + x))


def wet(e, x, t, p):
    """wet bulb temperature (Jensen et al. 1990)"""
    a, b = 0.000066 * p, 409.8 * e / ((x + 237.3) ** 2)
    return (a * t + b * x) / (a + b)


def vapour(td, t, p):
    e = svp(td, p, False, math.exp)
    if wet(e, td, t, p) <= 0.0:
        e = svp(td, p, True, math.exp)
    return e


def rounded(c, got, want):
    """got is want to one decimal place"""
    return abs(got - want) <= 0.05 + 1e-6 and c.close(got * 10.0, round(got * 10.0))


@harness(quick=[{"td": d, "p": q} for d in DEW for q in PRES[:1]] + [{"td": 0.4, "p": 1013.0}],
         thorough=[{"td": d, "p": q} for d in DEW for q in PRES + [940.0, 1060.0]], time=150)
def formulas(c, p):
    td, q = p["td"], p["p"]
    t = c.float("t", -60.0, 60.0)
    e = vapour(td, t, q)
    sh = 1000.0 * 0.622 * e / (q - 0.378 * e)
    w = wet(e, td, t, q)
    for name, fn, want in (("vapour pressure", ch.vap, e), ("specific humidity", ch.sh, sh), ("wet bulb temperature", ch.wb, w)):
        c.require(c.close(fn(td, t, q, roundit=False), want), name + " follows its formula, over ice when the wet bulb is frozen")
        c.require(rounded(c, fn(td, t, q), want), name + " is rounded to one decimal place")
    c.require(c.close(ch.dpd(td, t, roundit=False), t - td), "dew point depression is the difference")
    c.require(rounded(c, ch.dpd(td, t), t - td), "dew point depression is rounded to one decimal place")


@harness(quick=[{"t": d, "td": x, "p": 1013.0} for d in (-12.5, 0.0, 25.0) for x in ("below", "free")],
         thorough=[{"t": d, "td": x, "p": q} for d in DEW + [-30.0, 25.0] for q in PRES for x in ("below", "free")], time=150)
def relative(c, p):
    """relative humidity is the ratio to saturation at the air temperature, over ice at or below freezing"""
    t, q = p["t"], p["p"]
    es = svp(t, q, t <= 0.0, math.exp)
    if p["td"] == "free":
        td = c.choice("td", DEW + [t])
        c.require(c.close(ch.rh(td, t, q, roundit=False), vapour(td, t, q) / es * 100.0), "ratio of the vapour pressures")
        c.require(rounded(c, ch.rh(td, t, q), vapour(td, t, q) / es * 100.0), "to one decimal place")
    else:
        td = c.choice("td", DEW + [t])
        t2 = c.float("t", max(-55.0, td), 60.0)
        e = vapour(td, t2, q)
        r = ch.rh(td, t2, q, roundit=False)
        sat = ch.vap(t2, t2, q, roundit=False)
        c.require(abs(r * sat - e * 100.0) <= 1e-6 * e, "ratio of the vapour pressure to that of saturated air")


@harness(time=150)
def inverse(c, p):
    """specific humidity and vapour pressure of each other"""
    q = c.choice("p", PRES)
    e = c.float("e", 0.01, 120.0)
    s = ch.sh_from_vap(e, q, roundit=False)
    c.require(c.close(s * (q - 0.378 * e), 622.0 * e), "specific humidity of a vapour pressure")
    c.require(c.close(ch.vap_from_sh(s, q, roundit=False), e), "and back")
    x = c.float("q", 0.01, 120.0)
    c.require(rounded(c, ch.vap_from_sh(x, q), x * q / (622.0 + 0.378 * x)), "vapour pressure of a specific humidity, rounded")
    c.require(rounded(c, ch.sh_from_vap(e, q), s), "specific humidity, rounded")


@harness(quick=[{"td": d} for d in DEW if d], time=100)
def dew_point(c, p):
    """the dew point is found again from the vapour pressure"""
    td = p["td"]
    q = c.choice("p", PRES)
    t = c.float("t", td, 60.0)
    e = vapour(td, t, q)
    # certainly frozen or not: else the two directions may differ in what they take the bulb to be
    c.assume(t <= 0.0 or td > 0.0)
    c.require(abs(ch.td_from_vap(e, q, t, roundit=False) - td) < 1e-3, "the dew point again")
    c.require(abs(ch.td_from_vap(e, q, t) - td) <= 0.051, "to one decimal place")


@harness(time=100)
def between(c, p):
    """the wet bulb temperature lies between dew point and air temperature"""
    td = c.choice("td", DEW)
    q = c.choice("p", PRES)
    t = c.float("t", -60.0, 60.0)
    w = ch.wb(td, t, q, roundit=False)
    c.require(min(td, t) - 1e-6 <= w <= max(td, t) + 1e-6, "between them")


@harness(time=100)
def missing(c, p):
    td = c.opt("td", lambda k: 3.0)
    t = c.opt("t", lambda k: c.float(k, 4.0, 20.0))
    q = c.opt("p", lambda k: 1013.0)
    for fn in (ch.vap, ch.sh, ch.rh, ch.wb):
        c.require((fn(td, t, q) is None) == (td is None or t is None or q is None), "missing exactly when an input is")
    c.require((ch.dpd(td, t) is None) == (td is None or t is None), "depression: missing exactly when an input is")


NAMES = ["SHU", "VAP", "CRH", "CWB", "DPD"]


@harness(time=150)
def report(c, p):
    """the humidity variables of a report"""
    td = c.opt("td", lambda k: c.choice(k, [-20.0, 5.0, 20.0]))
    t = c.opt("t", lambda k: c.float(k, -10.0, 30.0))
    q = c.opt("p", lambda k: c.choice(k, PRES))
    r = R.report(AT=t, DPT=td)
    r.add_climate_variable("SLP", q)
    fake = c.float("rh", -20.0, 200.0) if c.flag("stub") else None
    if fake is not None:
        c.patch(ch, "rh", lambda *a, **k: None if any(x is None for x in a[:3]) else fake)
    r.calculate_humidity_variables(list(NAMES))
    if td is None or t is None or q is None:
        for v in NAMES:
            c.require(r.getvar(v) is None, "nothing without dew point, air temperature or pressure")
        return
    h = ch.rh(td, t, q)
    for v, fn in zip(NAMES, (ch.sh, ch.vap, ch.rh, ch.wb, ch.dpd)):
        got = r.getvar(v)
        if h < 0.0 or h > 150.0:
            c.require(got is None, "no humidity when the relative humidity is below 0 or above 150")
        else:
            want = fn(td, t) if v == "DPD" else fn(td, t, q)
            c.require(got is not None and c.close(got, want), v + " is calculated from the report and the pressure")
