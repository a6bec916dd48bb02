"""The fixed-width texts of a report."""
from api import harness
import Extended_IMMA as ex
import rep as R

BOUNDS = "each value written, one at a time and missing or any real (whole number) of its range - latitudes -90..90, "\
         "longitudes -180..360, other data -999..999, years 1..9999, hours 0..24, decks 0..999 - the others fixed; "\
         "identifiers and record numbers up to 10 characters; every flag 0..9; both texts"
ASSUMPTIONS = ["values are not exactly half-way between two whole numbers of the unit written"]

FIXED = {"LAT": 12.34, "LON": -56.78, "YR": 1950, "MO": 7, "DY": 21, "HR": 13.25, "AT": 12.3, "SST": 14.6, "SLP": 1012.5,
         "DPT": 8.7, "SHU": 6.4, "VAP": 10.9, "CRH": 77.8, "CWB": 10.2, "DPD": 3.6, "DS": 3, "VS": 4, "DCK": 927, "PT": 5}
ANOM = {"AT": 0.77, "SST": -1.23, "DPT": 2.34, "SHU": -0.45, "VAP": 1.56, "CRH": -6.78, "CWB": 0.89, "DPD": -0.91}
HEAD = [("LAT", 100), ("LON", 100), ("YR", 1), ("MO", 1), ("DY", 1), ("HR", 100)]
SHORT = HEAD + [("AT", 10), ("AT-", 100), ("SST", 10), ("SST-", 100), ("DSVS", 1), ("DCK", 1), ("PT", 1)]
LONG = HEAD + [("AT", 10), ("AT-", 100), ("SST", 10), ("SST-", 100), ("SLP", 10), ("DPT", 10), ("DPT-", 100), ("SHU", 10),
               ("SHU-", 100), ("VAP", 10), ("VAP-", 100), ("CRH", 10), ("CRH-", 100), ("CWB", 10), ("CWB-", 100),
               ("DPD", 10), ("DPD-", 100), ("DSVS", 1), ("DCK", 1), ("PT", 1)]
RANGE = {"LAT": (-90, 90), "LON": (-180, 360), "YR": (1, 9999), "MO": (1, 12), "DY": (1, 31), "HR": (0, 24),
         "DCK": (0, 999), "PT": (0, 99)}
WHOLE = ("YR", "MO", "DY", "DCK", "PT")
KEPT = ("LAT", "LON", "YR", "MO", "DCK")            # a report written out has these
POS = [("POS", n) for n in ("day", "land", "trk", "date", "time", "pos", "blklst")]
AT = [("AT", "bud"), ("AT", "clim"), ("AT", "nonorm"), None, ("AT", "noval"), ("AT", "nbud"), ("AT", "bbud"), ("AT", "rep")]
END = [("POS", "few"), ("POS", "ntrk")] + [None] * 6


def sst(n):
    return [("SST", k) for k in ("bud", "clim", "nonorm", "freez", "noval", n, "bbud", "rep")]


FLAGS = {"short": [POS + [("POS", "dup")], sst("nbud"), AT, [None] * 8, END],
         "long": [POS + [("POS", "iquam_track")], sst("spike"), AT,
                  [("DPT", k) for k in ("bud", "clim", "nonorm", "ssat", "noval", "round", "bbud", "rep", "repsat")], END]}


def nearest(x):
    """the nearest whole number of a plain number"""
    return int(x + 0.5) if x >= 0 else -int(-x + 0.5)


def text(r, which):
    return r.print_report() if which == "short" else r.print_longform_report()


def build(v, anom, **kw):
    d = dict(v)
    d.update(kw)
    r = R.report(**{k: d[k] for k in d if k in ("ID", "UID", "YR", "MO", "DY", "HR", "LAT", "LON", "SST", "AT", "SLP", "DPT",
                                                  "DS", "VS", "DCK", "PT")})
    for n in ("SHU", "VAP", "CRH", "CWB", "DPD"):
        if d[n] is not None:
            r.setvar(n, d[n])
    for n in ANOM:
        if anom[n] is not None:
            r.add_climate_variable(n, d[n] - anom[n] if d[n] is not None else None)
    return r


def columns(which):
    return SHORT if which == "short" else LONG


def written(n, scale):
    if n == "DSVS":
        return 304
    return nearest((ANOM[n[:-1]] if n.endswith("-") else FIXED[n]) * scale)


def line(ident, uid, cols, flags):
    return ident + " " + uid + "".join("{:8d}".format(k) for k in cols) + " " + \
        " ".join("".join("{:d}".format(9 if f is None else f) for f in b) for b in flags) + "\n"


def unset(which):
    return [[None] * len(b) for b in FLAGS[which]]


@harness(quick=[{"which": w, "col": n} for w in ("short", "long") for n, s in (SHORT if w == "short" else LONG)], time=60)
def column(c, p):
    """each value is in its column, in its unit, and changes no other column"""
    which, n = p["which"], p["col"]
    v, anom = dict(FIXED), dict(ANOM)
    cols = []
    for m, scale in columns(which):
        k = written(m, scale)
        if m == n:
            if n == "DSVS":
                ds = c.opt("DS", lambda x: c.int(x, 0, 9))
                vs = c.opt("VS", lambda x: c.int(x, 0, 9))
                v["DS"], v["VS"] = ds, vs
                k = 9999 if ds is None or vs is None else ds * 100 + vs
            elif n not in KEPT and c.flag("missing"):
                k = -32768
                if n.endswith("-"):
                    anom[n[:-1]] = None
                else:
                    v[n] = None
            else:
                lo, hi = RANGE.get(n, (-999, 999))
                k = c.int("k", lo * scale, hi * scale)
                if n in WHOLE:
                    v[n] = k
                else:
                    x = c.float("x", float(lo), float(hi))
                    c.assume(x * scale - k < 0.499999)
                    c.assume(k - x * scale < 0.499999)
                    if n.endswith("-"):
                        v[n[:-1]] = 20.0
                        anom[n[:-1]] = x
                    else:
                        v[n] = x
                    if n == "LON" and x > 180:
                        k = k - 36000
                    elif n == "LON" and x == 180:
                        k = None
        cols.append(k)
    if n in anom and v[n] is None:
        i = [m for m, s in columns(which)].index(n + "-")
        cols[i] = -32768
    if n.endswith("-") and v[n[:-1]] == 20.0:
        i = [m for m, s in columns(which)].index(n[:-1])
        cols[i] = 200
    c.assume(None not in cols)
    r = build(v, anom, ID="SHIP", UID="ABC123")
    t = text(r, which)
    c.observe("t", t)
    want = line("SHIP     ", "ABC123  ", cols, unset(which))
    c.require(len(t) == len(want), "every text is as long as every other")
    c.require(t == want, "a value is written in its unit in its column, and only there")


@harness(quick=[{"which": w} for w in ("short", "long")], time=60)
def names(c, p):
    """identifier and record number take 9 and 8 characters, whatever their length"""
    which = p["which"]
    ident = c.opt("id", lambda x: c.str(x, 0, 10))
    uid = c.str("uid", 0, 9)
    t = text(build(FIXED, ANOM, ID=ident, UID=uid), which)
    a = "" if ident is None else ident
    a = a[:9] + " " * (9 - len(a))
    b = uid[:8] + " " * (8 - len(uid))
    want = line(a, b, [written(n, s) for n, s in columns(which)], unset(which))
    c.require(t == want, "identifier and record number, padded and cut to their columns")


@harness(quick=[{"which": w} for w in ("short", "long")], time=60)
def flags(c, p):
    """every flag is in its place; a 9 is where none belongs"""
    which = p["which"]
    r = build(FIXED, ANOM, ID="SHIP", UID="ABC123")
    want, made = [], {}
    for b in FLAGS[which]:
        for f in b:
            if f is not None and f not in made:
                made[f] = c.int("%s_%s" % f, 0, 9)
    for f in made:
        r.set_qc(f[0], f[1], made[f])
    for k, n in (("SST", "hardlimit"), ("AT", "hardlimit"), ("POS", "isship"), ("SLP", "bud")):
        r.set_qc(k, n, c.int("other_%s_%s" % (k, n), 0, 9))
    for b in FLAGS[which]:
        want.append([None if f is None else made[f] for f in b])
    t = text(r, which)
    w = line("SHIP     ", "ABC123  ", [written(n, s) for n, s in columns(which)], want)
    c.require(t == w, "every flag in its place")
