"""Which reports are excluded by source: blacklists, generic identifiers, platform classes."""
from api import harness
import qc
import rep as R
import spec

BOUNDS = "every latitude in [-90, 90], longitude in [-180, 360]; year 1600..2100 or missing, month 0..13, deck 0..999, "\
         "platform type 0..99 or missing; identifiers: every printable string of 9 characters (12 for the one long name), "\
         "or missing"
ASSUMPTIONS = ["positions are exact reals; the tables of regions, years, decks and identifiers in this file are the ones "\
               "documented in the sources (Rayner 2006, Kennedy 2011, HadNMAT2)"]

REGION = {1: (-175, 40, -170, 55), 2: (-165, 40, -160, 60), 3: (-145, 40, -140, 50), 4: (-140, 30, -135, 40),
          5: (-140, 50, -130, 55), 6: (-70, 35, -60, 40), 7: (-50, 45, -40, 50), 8: (5, 70, 10, 80), 9: (0, -10, 10, 0),
          10: (-30, -25, -25, -20), 11: (-60, -50, -55, -45), 12: (75, -20, 80, -15), 13: (50, -30, 60, -20),
          14: (30, -40, 40, -30), 15: (20, 60, 25, 65), 16: (0, -40, 10, -30), 17: (-135, 30, -130, 40)}
YEARS = {1958: (1, 2, 3, 4, 5, 6, 14, 15), 1959: (1, 2, 3, 4, 5, 6, 14, 15), 1960: (1, 2, 3, 5, 6, 9, 14, 15),
         1961: (1, 2, 3, 5, 6, 14, 15, 16), 1962: (1, 2, 3, 5, 12, 13, 14, 15, 16),
         1963: (1, 2, 3, 5, 6, 12, 13, 14, 15, 16), 1964: (1, 2, 3, 5, 6, 12, 13, 14, 16),
         1965: (1, 2, 6, 10, 12, 13, 14, 15, 16), 1966: (1, 2, 6, 9, 14, 15, 16), 1967: (1, 2, 5, 6, 9, 14, 15),
         1968: (1, 2, 3, 5, 6, 9, 14, 15), 1969: (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16),
         1970: (1, 2, 3, 4, 5, 6, 8, 9, 14, 15), 1971: (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 16),
         1972: (4, 7, 8, 9, 10, 11, 13, 16, 17), 1973: (4, 7, 8, 10, 11, 13, 16, 17), 1974: (4, 7, 8, 10, 11, 16, 17)}
BUOYS = ("53521", "53522", "53566", "53567", "53568", "53571", "53578", "53580", "53582", "53591", "53592", "53593",
         "53594", "53595", "53596", "53599", "53600", "53601", "53602", "53603", "53604", "53605", "53606", "53607",
         "53608", "53609", "53901", "53902")


def place(c):
    return c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 360.0)


def in_region(lat, lon, year):
    w = lon - 360 if lon > 180 else lon
    hit = False
    for y in YEARS:
        for r in YEARS[y]:
            a, b, d, e = REGION[r]
            hit = hit or (year == y and w >= a and w <= d and lat >= b and lat <= e)
    return hit


@harness(quick=[{"deck": 732}, {"deck": None}], time=120)
def position(c, p):
    lat, lon = place(c)
    year, month = c.int("year", 1600, 2100), c.int("month", 1, 12)
    deck = p["deck"] or c.int("deck", 0, 999)
    pt = c.opt("pt", lambda n: c.int(n, 0, 99))
    ident = c.choice("id", [None, "SHIP     ", "53521    ", "SUPERIGORINA"])
    r = qc.blacklist(ident, deck, year, month, lat, lon, pt)
    c.observe("r", r)
    zero = lat == 0 and (lon == 0 or lon == 360)
    cman = pt is not None and pt == 13
    winter = (year == 2005 and month >= 11) or (year == 2006 and month == 1)
    want = zero or cman or ident == "SUPERIGORINA" or deck == 874 or (ident == "53521    " and winter) or \
        (deck == 732 and in_region(lat, lon, year))
    c.require(r == (1 if want else 0), "blacklisted exactly: 0/0, C-MAN, deck 874, listed deck 732 areas, listed names")


@harness(quick=[{"len": 9}, {"len": 12}], time=100)
def names(c, p):
    ident = c.str("id", p["len"], p["len"])
    year, month = c.int("year", 1600, 2100), c.int("month", 1, 12)
    r = qc.blacklist(ident, 1, year, month, 10.0, 20.0, 5)
    winter = (year == 2005 and month >= 11) or (year == 2006 and month == 1)
    bad = False
    for b in BUOYS:
        bad = bad or ident == b + "    "
    c.require(r == (1 if (bad and winter) or ident == "SUPERIGORINA" else 0), "listed buoys only from Nov 2005 to Jan 2006")


GENERIC = ["1        ", "58       ", "RIGG     ", "     RIGG", "SHIP     ", "ship     ", "     SHIP", "PLAT     ",
           "     PLAT", "         ", "0120     ", "0204     ", "0205     ", "0206     ", "0207     ", "0208     ",
           "0209     ", "MASKST   ", "MASKSTID ", "MASK     ", "XXXX     ", "/////    "]


@harness(quick=[{}], time=100)
def generic(c, p):
    ident = c.opt("id", lambda n: c.str(n, 9, 9))
    year = c.int("year", 1600, 2100)
    r = qc.id_is_generic(ident, year)
    c.observe("r", r)
    if ident is None:
        c.require(r, "a missing identifier is generic")
        return
    want = False
    for g in GENERIC:
        want = want or ident == g
    want = want or ((ident == "2        " or ident == "00002    ") and year >= 1921 and year <= 1941)
    want = want or (ident == "3        " and year >= 1930 and year <= 1937)
    want = want or ((ident == "7        " or ident == "00007    ") and year >= 1934 and year <= 1954)
    c.require(r == want, "generic exactly the listed names, some only in some years")


def opt_int(c, n, lo, hi):
    return c.opt(n, lambda m: c.int(m, lo, hi))


def known(x, values):
    hit = False
    for v in values:
        hit = hit or (x is not None and x == v)
    return hit


@harness(quick=[{}], time=100)
def platform(c, p):
    r = R.report()
    pt, dck = opt_int(c, "pt", 0, 99), opt_int(c, "dck", 0, 999)
    r.setvar("PT", pt)
    r.setvar("DCK", dck)
    r.is_buoy()
    r.is_ship()
    r.is_deck_780()
    r.wind_blacklist()
    r.humidity_blacklist()
    f = {k: v for k, v in (("buoy", r.get_qc("POS", "isbuoy")), ("drifter", r.get_qc("POS", "isdrifter")),
                           ("ship", r.get_qc("POS", "isship")), ("780", r.get_qc("POS", "is780")),
                           ("wind", r.get_qc("W", "wind_blacklist")), ("hum", r.get_qc("DPT", "hum_blacklist")))}
    c.observe("f", [f[k] for k in ("buoy", "drifter", "ship", "780", "wind", "hum")])
    c.require(f["buoy"] == (1 if known(pt, (6, 7)) else 0), "buoys are platform types 6 and 7")
    c.require(f["drifter"] == (1 if known(pt, (7,)) else 0), "drifters are platform type 7")
    c.require(f["ship"] == (1 if known(pt, (0, 1, 2, 3, 4, 5, 10, 11, 12, 17)) else 0), "ship platform types")
    c.require(f["780"] == (1 if known(dck, (780,)) else 0), "deck 780")
    c.require(f["wind"] == (1 if known(dck, (708, 780)) else 0), "no winds from decks 708 and 780")
    c.require(f["hum"] == (0 if known(pt, (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15)) else 1), "humidity platform types")


@harness(quick=[{}], time=100)
def air_temperature(c, p):
    r = R.report()
    pt, dck = opt_int(c, "pt", 0, 99), opt_int(c, "dck", 0, 999)
    year = opt_int(c, "year", 1600, 2100)
    lat, lon = c.opt("lat", lambda n: c.float(n, -90.0, 90.0)), c.opt("lon", lambda n: c.float(n, -180.0, 360.0))
    for k, v in (("PT", pt), ("DCK", dck), ("YR", year), ("LAT", lat), ("LON", lon)):
        r.setvar(k, v)
    r.mat_blacklist()
    got = r.get_qc("AT", "mat_blacklist")
    c.observe("got", got)
    want = known(pt, (5,)) and known(dck, (780,))
    if lat is not None and lon is not None and year is not None:
        w = lon - 360 if lon > 180 else lon
        area = (w >= -80 and w <= 0 and lat >= 40 and lat <= 55) or (w >= -10 and w <= 30 and lat >= 35 and lat <= 45) or \
            (w >= 15 and w <= 45 and lat >= -10 and lat <= 40) or (w >= 15 and w <= 95 and lat >= -10 and lat <= 15) or \
            (w >= 95 and w <= 105 and lat >= -10 and lat <= 5)
        want = want or (known(dck, (193,)) and year >= 1880 and year <= 1892 and area)
    elif year is not None and known(dck, (193,)):
        return
    c.require(got == (1 if want else 0), "excluded exactly: deck 780 bathythermographs, deck 193 in its areas and years")


@harness(quick=[{}], time=100)
def of_report(c, p):
    r = R.report(ID=c.choice("id", [None, "53521    ", "SUPERIGORINA"]))
    pt, dck = opt_int(c, "pt", 0, 99), opt_int(c, "dck", 0, 999)
    year, month = c.int("year", 1600, 2100), c.int("month", 1, 12)
    lat, lon = place(c)
    for k, v in (("PT", pt), ("DCK", dck), ("YR", year), ("MO", month), ("LAT", lat), ("LON", lon)):
        r.setvar(k, v)
    r.do_blacklist()
    got = r.get_qc("POS", "blklst")
    c.require(got == qc.blacklist(r.getvar("ID"), dck, year, month, lat, lon, pt), "the report's own data are judged")
