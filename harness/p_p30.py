"""The QC programs: from the monthly files through climatologies and checks to the output."""
from api import harness
import BackgroundField as bf
import CalcHums
import Climatology as cl
import Extended_IMMA as ex
import IMMA1
import marine_qc
import marine_qc_hires
import marine_qc_track_only
from fakefs import FS, Args, Config, File

BOUNDS = "one month of QC (year ends included), up to 3 records (thorough: 4) in the files of three months, with any year, month, "\
         "day and position, unreadable ones and excluded identifiers; at most one failing flag per report (any one)"
ASSUMPTIONS = ["files, climatologies and the command line are stand-ins", "decoding a record is replaced by one that gives any values",
               "the checks are replaced by ones that record what they are given and fail any reports",
               "every readable record has a position, year and month",
               "every report that is written has a UID"]

PROGRAMS = {"main": marine_qc, "hires": marine_qc_hires, "track": marine_qc_track_only}
FIELDS = [(v, s) for v in ("SST", "AT", "SLP2", "SHU", "CRH", "CWB", "DPD", "DPT", "AT2", "SLP") for s in ("mean", "stdev")]
SHIP = [("track_check", "track_check"), ("iquam_track_check", "IQUAM_track_check"), ("spike_check", "IQUAM_spike_check"),
        ("find_saturated_runs", "saturated_runs"), ("find_multiple_rounded_values", "multiple_rounded_values"),
        ("find_repeated_values", "find_repeated_values")]
PAR = {"runid": "run7", "icoads_dir": ["/none", "/ic/YYYY"], "icoads_filenames": ["YYYY", "A_YYYY-MMMM.gz"],
       "background_dir": ["/bg"], "background_filenames": ["YYYYMMMMDDDD.nc"],
       "climatologies": [[v, s, "/c/%s_%s.nc" % (v, s), "var" + v] for v, s in FIELDS],
       "hires_climatologies": [["AT", "mean", "/no", "no"], ["SST", "mean", "/c/hires.nc", "no"], ["SST", "stdev", "/no2", "no"]],
       "mds_buddy_check": {"k": "mds"}, "slp_buddy_check": {"k": "slp"}, "bayesian_buddy_check": {"k": "bayes"}}
PAR.update({k: {"k": k} for _, k in SHIP})
SEASONS = ["DJF", "DJF", "MAM", "MAM", "MAM", "JJA", "JJA", "JJA", "SON", "SON", "SON", "DJF"]


class Field:
    """a climatology that knows where it came from; look gives its values"""

    def __init__(self, look, path, var):
        self.look, self.path, self.var = look, path, var

    def get_value(self, lat, lon, m, d):
        return self.look(self.path, self.var, "east", lat, lon, m, d)

    def get_value_mds_style(self, lat, lon, m, d):
        return self.look(self.path, self.var, "out", lat, lon, m, d)

    def get_value_ostia(self, lat, lon):
        return self.look(self.path, self.var, "ostia", lat, lon, None, None)


class Stop(Exception):
    pass


def world(c, prog, when, records, look, base, tracking=False, excluded=(), backgrounds=(), until=None):
    """records: {(year, month): [fields or None ...]}, the months without are missing files; base is the base QC"""
    mq = PROGRAMS[prog]
    fs = FS({"/bad.txt": "".join(x + "\n" for x in excluded), "/par.json": "{}"}, ["/out"])
    for b in backgrounds:
        fs.files[b] = "x"
    table = []
    for (y, m), recs in records.items():
        for r in recs:
            table.append(r)
        k = len(table) - len(recs)
        fs.files["/ic/%04d/A_%04d-%02d.gz" % (y, y, m)] = "".join("%d\n" % (k + i) for i in range(len(recs)))

    class Gzip:
        def open(self, name, mode="r", *a):
            if not isinstance(name, str):
                raise TypeError("filename must be a str or bytes object, or a file")
            return File(fs, name, mode)

    class Record(IMMA1.IMMA):
        def readstr(self, line):
            r = table[int(line)]
            if r.get("broken") == "early":
                raise ValueError("YR")
            for k, v in r.items():
                if k != "broken":
                    self.data[k] = v
            if r.get("broken"):
                raise ValueError("UID")
            return True

    class Json:
        def load(self, f):
            return PAR
    c.patch(bf, "os", fs)
    c.patch(bf, "open", fs.open)
    c.patch(ex, "open", fs.open)
    c.patch(mq, "open", fs.open)
    c.patch(mq, "gzip", Gzip())
    c.patch(mq, "json", Json())
    c.patch(mq, "IMMA", Record)
    c.patch(mq, "ConfigParser", Config({**{
         ("Directories", "ICOADS_dir"): "/ic", ("Directories", "out_dir"): "/out", ("Files", "IDs_to_exclude"): "/bad.txt",
         ("Files", "parameter_file"): "/par.json", ("Icoads", "icoads_version"): "3.0",
         ("Climatologies", "Old_SST_stdev_climatology"): "/old", ("Climatologies", "SST_buddy_one_box_to_buddy_avg"): "/s1",
         ("Climatologies", "SST_buddy_one_ob_to_box_avg"): "/s2", ("Climatologies", "SST_buddy_avg_sampling"): "/s3"},
        **{("Climatologies", s + "_ostia_background"): "/v" + s for s in SEASONS}}))
    y, m = when
    y2, m2 = until or when
    c.patch(mq, "argparse", Args(config="cfg", year1=y, year2=y2, month1=m, month2=m2, tracking=tracking))
    c.patch(cl.Climatology, "from_filename", staticmethod(lambda path, var: Field(look, path, var)))
    c.patch(ex.MarineReportQC, "perform_base_qc", base if prog != "hires" else None)
    c.patch(ex.MarineReportQC, "perform_base_sst_qc", base if prog == "hires" else None)
    return mq, fs


def months(y, m):
    k = y * 12 + m - 1
    return [((k + i) // 12, (k + i) % 12 + 1) for i in (-1, 0, 1)]


def record_checks(c, prog, fail=lambda uid: 0):
    """replaces the checks on voyages and decks; returns what they were given"""
    ships, decks = [], []
    for name, _ in SHIP:
        def check(self, parameters, intype=None, name=name):
            ships.append((name, intype, [r.getvar("UID") for r in self.reps], parameters))
            if name == "track_check":
                for r in self.reps:
                    r.set_qc("POS", "trk", fail(r.getvar("UID")))
        c.patch(ex.Voyage, name, check)

    def bayes(self, intype, s1, s2, s3, parameters):
        decks.append(("bayes", intype, [r.getvar("UID") for r in self.reps if self.filter.test_report(r) == 0],
                      [r.getvar("UID") for r in self.reps], [(s.path, s.var) for s in (s1, s2, s3)], parameters, list(self.reps)))

    def mds(self, intype, s, parameters):
        decks.append(("mds", intype, [r.getvar("UID") for r in self.reps if self.filter.test_report(r) == 0],
                      [r.getvar("UID") for r in self.reps], [(s.path, s.var)], parameters, list(self.reps)))
    c.patch(ex.Deck, "bayesian_buddy_check", bayes)
    c.patch(ex.Deck, "mds_buddy_check", mds)
    return ships, decks


def clean(self, parameters):
    for t, f in [("POS", x) for x in ("date", "time", "pos", "blklst", "trk", "is780", "day", "isdrifter")] + [
            (v, x) for v in ("SST", "AT", "DPT", "SLP") for x in ("noval", "freez", "clim", "nonorm")] + [
            ("AT", "mat_blacklist"), ("DPT", "hum_blacklist")]:
        self.set_qc(t, f, 0)
    self.set_qc("POS", "isship", 1)


def fields(i, y, m, **more):
    return dict({"ID": "SHIP%d    " % i, "UID": "U%05d" % i, "YR": y, "MO": m, "DY": 10 + i, "HR": 6.0, "LAT": 10.5 + i, "LON": 20.5,
                 "SST": 15.0, "AT": 14.0, "DPT": 9.0, "SLP": 1000.0, "PT": 5, "DCK": 926, "SID": 1}, **more)


def nothing(*a):
    return 7.0


@harness(quick=[{"prog": p, "m": m, "at": a} for p, m, a in (("main", 3, 0), ("main", 12, 1), ("main", 1, 2), ("hires", 3, 1),
                                                             ("track", 3, 1))],
         thorough=[{"prog": p, "m": m, "at": a, "n": 3} for p in PROGRAMS for m in (1, 3, 12) for a in (0, 1, 2)], time=200)
def read(c, p):
    """exactly the readable records of the three months, each once"""
    y, m = 2003, p["m"]
    three = months(y, m)
    here = three[p["at"]]
    recs, wanted = [], []
    for i in range(p.get("n", 2)):
        how = c.choice("how%d" % i, ["good", "early", "late", "excluded", "dates"]) if i == 0 else \
            c.choice("how%d" % i, ["good", "late", "dates"])
        r = fields(i, here[0], here[1])
        if how in ("early", "late"):
            r["broken"] = how
        if how == "excluded":
            r["ID"] = c.choice("id%d" % i, ["BAD      ", "BAD1     ", "LONGBAD99", None])
        if how == "dates":
            r["YR"], r["MO"] = c.int("yr%d" % i, 2001, 2005), c.int("mo%d" % i, 1, 12)
        if i == 1 and how == "good" and c.flag("unnamed"):
            del r["UID"]                    # a record need not have a part with its UID
        recs.append(r)
        wanted.append(how in ("good", "dates") and bool(r["YR"] == here[0]) and bool(r["MO"] == here[1])
                      or how == "excluded" and r["ID"] not in ("BAD      ", "LONGBAD99"))
    others = {k: [fields(7 + j, *k)] for j, k in enumerate(three) if k != here}
    for k in list(others):
        if c.flag("missing%d" % three.index(k)):
            del others[k]
    others[here] = recs
    c.assume(any(wanted) or len(others) > 1)
    mq, fs = world(c, p["prog"], (y, m), {k: others[k] for k in three if k in others}, nothing, clean,
                   excluded=["BAD", "", "LONGBAD99"])
    ships, decks = record_checks(c, p["prog"])
    for out in ("write_output", "write_qc"):
        c.patch(ex.Deck, out, lambda self, *a, **k: None)
    mq.main([])
    want = [recs[i].get("UID") for i in range(len(recs)) if wanted[i]] + ["U%05d" % (7 + three.index(k)) for k in others if k != here]
    want.sort(key=str)
    c.require(len(decks) > 0 and all(sorted(d[3], key=str) == want for d in decks),
              "exactly the readable reports of the three months, less the excluded")
    for r in decks[0][6]:
        c.require(r.get_qc("POS", "month_match") == (1 if (r.getvar("YR"), r.getvar("MO")) == (y, m) else 0),
                  "marked as of the month of the run or not")


@harness(quick=[{"prog": p, "none": v} for p, v in (("main", None), ("main", "SST"), ("main", "SLP"), ("main", "DPT"), ("hires", None),
                                                    ("hires", "SST"), ("track", None), ("track", "SST"))], time=150)
def climate(c, p):
    """each variable gets its own climatology, at the place and date of the report"""
    lat, lon = c.float("lat", -90.0, 90.0), c.float("lon", -180.0, 180.0)
    day = c.opt("dy", lambda k: c.int(k, 1, 31))
    at = c.opt("at", lambda k: c.choice(k, [14.0, -3.5]))
    three = months(2003, 3)
    seen = []
    codes = {}

    def look(path, var, style, la, lo, m, d):
        seen.append((la, lo, m, d))
        if p["none"] and ("/" + p["none"] + "_") in path.replace("hires", "SST_"):
            return None
        if path == "/c/SLP_mean.nc":
            return 1010.0
        return codes.setdefault((path, var, style), 100.0 + len(codes))

    got = []

    def base(self, parameters):
        got.append(self)
        c.require(parameters is PAR, "the base QC gets the parameters")
        used = {}
        for v in ("SST",) if p["prog"] != "main" else ("SST", "AT", "SLP2", "SHU", "CRH", "CWB", "DPD", "DPT", "AT2", "SLP"):
            style = "out" if v in ("SST", "AT") and p["prog"] != "hires" else "east"
            for s, t in (("clim", "mean"), ("stdev", "stdev")):
                path, var = ("/c/hires.nc", "temperature") if p["prog"] == "hires" else ("/c/%s_%s.nc" % (v, t), "var" + v)
                x = self.getnorm(v, s)
                if t == "stdev" and v not in ("DPT", "AT2", "SLP"):
                    c.require(x is None, "%s has no standard deviation" % v)
                elif v == p["none"]:
                    c.require(x is None, "%s has no climatology" % v)
                else:
                    c.require(x == (1010.0 if path == "/c/SLP_mean.nc" else codes.get((path, var, style))),
                              "%s %s is from its own field" % (v, s))
        if p["prog"] == "main":
            a, b = self.getvar("AT"), self.getvar("AT2")
            c.require((a is None and b is None and at is None) or (a == at and b == at), "the second air temperature is the first")
            for v, fn in (("CRH", CalcHums.rh), ("SHU", CalcHums.sh), ("VAP", CalcHums.vap), ("CWB", CalcHums.wb)):
                h = fn(9.0, at, 1010.0)
                if p["none"] == "SLP" or at is None or CalcHums.rh(9.0, at, 1010.0) > 150.0:
                    c.require(self.getvar(v) is None, "no humidity without air temperature and pressure")
                else:
                    c.require(self.getvar(v) == h, "humidity from the climatological pressure")
        clean(self, parameters)
    mq, fs = world(c, p["prog"], (2003, 3), {three[1]: [fields(0, 2003, 3, LAT=lat, LON=lon, DY=day, AT=at)]}, look, base)
    record_checks(c, p["prog"])
    mq.main([])
    c.require(len(got) == 1, "the base QC runs once on the report")
    for la, lo, m, d in seen:
        c.require(c.close(la, lat) and c.close(lo, lon) and m == 3, "looked up at the place and in the month of the report")
        c.require((d is None and day is None) or (d is not None and day is not None and d == day), "and on its day")


@harness(quick=[{"prog": p, "y": y, "m": m} for p, y, m in (("main", 2003, 3), ("main", 2003, 1), ("main", 1985, 1), ("track", 2003, 3))],
         thorough=[{"prog": p, "y": y, "m": m, "n": 3} for p in ("main", "track") for y, m in ((2003, 3), (2004, 3), (2003, 1), (1985, 1),
                                                                                               (2003, 12))], time=200)
def background(c, p):
    """in tracking mode each report has the background of the day before at its place"""
    y, m = p["y"], p["m"]
    three = months(y, m)
    n = p.get("n", 2)
    recs = {}
    for i in range(n):
        k = three[c.concretise(c.int("where%d" % i, 0, 2))]
        d = c.choice("day%d" % i, [1, 2, 28, 31, None])
        recs.setdefault(k, []).append(fields(i, k[0], k[1], DY=d))

    def yesterday(yy, mm, dd):
        import datetime
        try:
            t = datetime.date(yy, mm, dd) - datetime.timedelta(days=1)
        except ValueError:
            return None
        return "/bg/%04d%02d%02d.nc" % (t.year, t.month, t.day)
    files = {}
    gone = c.flag("gone")
    for k in three:
        for d in (1, 2, 28, 31):
            f = yesterday(k[0], k[1], d)
            if f and not (gone and d == 2):
                files[f] = float(f[4:12])

    def look(path, var, style, la, lo, mm, dd):
        if var == "analysed_sst":
            return None if path is None else files[path] + 273.15 if style == "ostia" else 0.0
        if var == "sea_ice_fraction":
            return None if path is None else files[path] * 2.0 if style == "ostia" else 0.0
        if var == "bg_var":
            return [path, style, la, lo, mm, dd]
        return 5.0
    mq, fs = world(c, p["prog"], (y, m), {k: recs[k] for k in three if k in recs}, look, clean, tracking=True, backgrounds=list(files))
    ships, decks = record_checks(c, p["prog"])
    mq.main([])
    c.require(sorted(decks[0][3]) == ["U%05d" % i for i in range(n)], "all reports are there")
    for r in decks[0][6]:
        d, k = r.getvar("DY"), (r.getvar("YR"), r.getvar("MO"))
        if d is None or k[0] < 1985:
            for v in ("OSTIA", "ICE", "BGVAR"):
                c.require(r.getvar(v) is None, "no background without a day or before the analyses begin")
            continue
        f = yesterday(k[0], k[1], d)
        if f is None or f not in files:
            c.require(r.getvar("OSTIA") is None and r.getvar("ICE") is None, "no background when there is no file")
        else:
            o, ice = r.getvar("OSTIA"), r.getvar("ICE")
            c.require(o is not None and abs(o - files[f]) < 1e-3, "the analysed SST of the day before, in Celsius")
            c.require(ice is not None and abs(ice - 2.0 * files[f]) < 1e-3, "the ice of the day before")
        c.require(r.getvar("BGVAR") == ["/v" + SEASONS[k[1] - 1], "out", r.lat(), r.lon(), k[1], d], "the variance of its season and place")


BUDDIES = {"SST": [("POS", "is780"), ("SST", "noval"), ("SST", "freez"), ("SST", "clim"), ("SST", "nonorm")],
           "AT": [("POS", "isship"), ("AT", "mat_blacklist"), ("POS", "day"), ("AT", "noval"), ("AT", "clim"), ("AT", "nonorm")],
           "DPT": [("DPT", "hum_blacklist"), ("DPT", "noval"), ("DPT", "clim"), ("DPT", "nonorm")],
           "SLP": [("SLP", "noval"), ("SLP", "clim"), ("SLP", "nonorm")]}
COMMON = [("POS", "date"), ("POS", "time"), ("POS", "pos"), ("POS", "blklst")]
ALL = COMMON + [f for v in BUDDIES for f in BUDDIES[v]] + [("AT", "freez"), ("DPT", "freez"), ("SLP", "hardlimit")]


@harness(quick=[{"prog": "main", "n": 1}, {"prog": "main", "n": 3}, {"prog": "hires", "n": 1}, {"prog": "track", "n": 1}],
         thorough=[{"prog": q, "n": n} for q in PROGRAMS for n in (1, 2, 4)], time=250)
def passed_on(c, p):
    """each check gets exactly the reports that passed what comes before it, with its own fields and parameters"""
    n, prog = p["n"], p["prog"]
    three = months(2003, 3)
    bad, trk = {}, {}
    recs = {}
    for i in range(n):
        k = three[i % 3]
        recs.setdefault(k, []).append(fields(i, k[0], k[1], ID=["SHIP1    ", "SHIP2    "][i // 2]))

    def base(self, parameters):
        clean(self, parameters)
        u = int(self.getvar("UID")[1:])
        k = c.concretise(c.int("bad%d" % u, 0, len(ALL))) if u == 0 or n < 3 else c.concretise(c.int("bad%d" % u, 0, 1))
        bad[u] = ALL[k - 1] if k else None
        if k:
            self.set_qc(bad[u][0], bad[u][1], 0 if bad[u][1] == "isship" else 1)

    def fail(uid):
        u = int(uid[1:])
        trk[u] = c.flag("trk%d" % u)
        return 1 if trk[u] else 0
    mq, fs = world(c, prog, (2003, 3), recs, nothing, base)
    ships, decks = record_checks(c, prog, fail)
    mq.main([])
    ok = [i for i in range(n) if bad[i] not in COMMON]
    groups = [g for g in ([i for i in ok if i // 2 == j] for j in (0, 1)) if g]
    kinds = [("track_check", None)]
    if prog != "hires":
        kinds += [(x, None) for x, _ in SHIP[1:5]]
    kinds += [("find_repeated_values", v) for v in (("SST", "AT", "AT2", "DPT", "SLP") if prog == "main" else ("SST",))]
    want = sorted((nm, v or "", ["U%05d" % i for i in g]) for nm, v in kinds for g in groups)
    got = sorted((nm, v or "", sorted(u)) for nm, v, u, q in ships if u)
    c.require(got == want, "each ship check runs once on the reports of each ship that have a valid place and time")
    c.require(all(q is PAR[dict(SHIP)[nm]] for nm, v, u, q in ships), "with its parameters")
    wants = []
    for v in ("SST", "AT", "DPT", "SLP") if prog == "main" else ("SST",):
        who = ["U%05d" % i for i in ok if not trk[i] and bad[i] not in BUDDIES[v]]
        par = PAR["slp_buddy_check" if v == "SLP" else "mds_buddy_check"]
        wants.append(("mds", v, who, [("/old", "sst")] if v in ("SST", "AT") else [("/c/%s_stdev.nc" % v, "var" + v)], par))
        if v in ("SST", "AT"):
            wants.append(("bayes", v, who, [("/s1", "sst"), ("/s2", "sst"), ("/s3", "sst")], PAR))
    for kind, v, who, sd, par in wants:
        calls = [d for d in decks if d[0] == kind and d[1] == v]
        c.require(len(calls) == 1, "%s %s buddy check runs once" % (kind, v))
        c.require(sorted(calls[0][2]) == sorted(who), "%s %s buddy check gets exactly what passed before it" % (kind, v))
        c.require(calls[0][4] == sd and calls[0][5] is par, "%s %s buddy check has its own fields and parameters" % (kind, v))
    c.require(len(decks) == len(wants), "no other buddy check")


QC = {"POS": ["day", "isship", "trk", "date", "time", "pos", "blklst", "isbuoy", "iquam_track"],
      "SST": ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"],
      "AT": ["bud", "clim", "nonorm", "freez", "noval", "mat_blacklist", "bbud", "rep", "hardlimit"],
      "DPT": ["bud", "clim", "nonorm", "freez", "noval", "hum_blacklist", "bbud", "rep", "ssat", "repsat", "round", "hardlimit"],
      "SLP": ["bud", "clim", "nonorm", "noval", "rep"], "W": ["noval", "hardlimit", "consistency", "wind_blacklist"]}
MIN = {k: [f for f in v if f not in ("iquam_track", "spike", "hardlimit")] for k, v in QC.items() if k not in ("SLP", "W")}


CODE = {(t, f): i for i, (t, f) in enumerate((t, f) for t in QC for f in QC[t])}


def code(t, f, i):
    """every flag has its own pair of values in two reports, 9 (not set) among them"""
    return CODE[t, f] % 10 if i % 2 else (9 if CODE[t, f] % 7 == 5 else CODE[t, f] // 10)


def mark(r, i):
    for t, f in CODE:
        r.qc.pop(t + f, None)
        if code(t, f, i) != 9:
            r.set_qc(t, f, code(t, f, i))


def rows(fs, name):
    lines = fs.files[name].split("\n")
    head = lines[0].split(",")
    return [dict(zip(head, x.split(",")), n=len(x.split(",")) == len(head)) for x in lines[1:-1]], lines[-1] == ""


def same(text, value):
    """a written value is the value, up to what is written of it"""
    if value is None:
        return text == "\\N"
    try:
        return abs(float(text) - value) < 1e-3
    except ValueError:
        return False


@harness(quick=[{"prog": q, "tr": t} for q, t in (("main", 0), ("main", 1), ("hires", 1), ("track", 1))],
         thorough=[{"prog": q, "tr": t, "n": 4} for q in PROGRAMS for t in (0, 1)], time=250)
def written(c, p):
    """the reports of the month, and of each drifter, are written with their values and flags"""
    prog, tr = p["prog"], p["tr"]
    three = months(2003, 1)
    n = p.get("n", 3)
    recs, drift = {}, []
    for i in range(n):
        k = three[c.concretise(c.int("where%d" % i, 0, 2)) if i < 2 else 1]
        drift.append(c.flag("drifter%d" % i))
        ident = ["B/1      ", "B/1      ", "B2       ", None][i]
        more = {"SST": None} if i == 1 and c.flag("nosst") else {}
        recs.setdefault(k, []).append(fields(i, k[0], k[1], ID=ident, **more))

    def base(self, parameters):
        clean(self, parameters)
        u = int(self.getvar("UID")[1:])
        self.set_qc("POS", "isdrifter", 1 if drift[u] else 0)
    mq, fs = world(c, prog, (2003, 1), {k: recs[k] for k in three if k in recs}, nothing, base, tracking=bool(tr))
    record_checks(c, prog)
    old = ex.Deck.mds_buddy_check

    def last(self, intype, s, parameters):
        old(self, intype, s, parameters)
        for r in self.reps:
            mark(r, int(r.getvar("UID")[1:]))
    c.patch(ex.Deck, "mds_buddy_check", last)
    mq.main([])
    now = [(i, r) for k in recs if k == (2003, 1) for r in recs[k] for i in [int(r["UID"][1:])]]
    every = {r["UID"]: r for k in recs for r in recs[k]}
    out = {f: fs.files[f] for f in fs.files if f.startswith("/out/")}
    c.require(all(f.startswith("/out/2003/01/") and f in fs.closed for f in out), "everything goes to the directory of the month")
    names = {}
    run = "hires_run7" if prog == "hires" else "run7"
    if prog == "main":
        names["Variables_200301_%s.csv" % run] = (None, now)
    if prog != "track":
        for t in QC if prog == "main" else ["SST"]:
            names["%s_qc_200301_%s.csv" % (t, run)] = (t, now)
    ids = []
    if tr:
        for ident, safe in (("B/1      ", ex.safe_filename("B/1      ")), ("B2       ", ex.safe_filename("B2       "))):
            mine = [(i, r) for i, r in now if r["ID"] == ident and drift[i]]
            if mine:
                ids.append(ident + "," + safe)
                if prog != "hires":
                    names["Variables_200301_%s_%s.csv" % (safe, run)] = (None, mine)
                for t in ("SST",) if prog == "hires" else ("POS", "SST"):
                    names["%s_qc_200301_%s_%s.csv" % (t, safe, run)] = (t, mine)
        c.require(sorted(fs.files["/out/2003/01/ID_file.txt"].split("\n")[:-1]) == sorted(ids), "the list of drifters of the month")
        out.pop("/out/2003/01/ID_file.txt")
    c.require(sorted(out) == sorted("/out/2003/01/" + x for x in names), "one file each for the values and the flags of each kind")
    for name, (t, who) in names.items():
        got, end = rows(fs, "/out/2003/01/" + name)
        c.require(end and [g["UID"] for g in got] == ["U%05d" % i for i, r in who], name + ": the reports of the month, each once")
        for g, (i, r) in zip(got, who):
            c.require(g["n"], "as many columns as in the header")
            if t is None:
                c.require(g["DATE"] == "2003-01-%02d" % r["DY"] and g["ID"] == ('"%s"' % r["ID"] if r["ID"] else "\\N"), "date and identifier")
                for v in ("YR", "MO", "DY", "HR", "LAT", "LON", "AT", "SST", "DPT", "SLP"):
                    c.require(same(g[v], r[v]), v + " in its column")
                for v in ("AT", "SST", "DPT", "SLP") if prog == "main" else ("SST",):
                    c.require(same(g[v + "_anom"], None if r[v] is None else r[v] - 7.0), v + " anomaly in its column")
            else:
                for f in QC[t]:
                    c.require(g[f] == str(code(t, f, i)), "each flag in its column, 9 when it was not set")


def span(y, m, k):
    return [((y * 12 + m - 1 + i) // 12, (y * 12 + m - 1 + i) % 12 + 1) for i in range(k)]


@harness(quick=[{"prog": q, "y": 2003, "m": m, "k": 2} for q, m in (("main", 12), ("hires", 3), ("track", 12))],
         thorough=[{"prog": q, "y": 2003, "m": m, "k": k, "n": 3} for q in PROGRAMS for m, k in ((3, 2), (12, 2), (11, 3))], time=250)
def successive(c, p):
    """a run of several months gives for each of them what a run of that month alone gives"""
    prog, n = p["prog"], p.get("n", 2)
    run = span(p["y"], p["m"], p["k"])
    every = span(*months(*run[0])[0], p["k"] + 2)
    where = [every[c.concretise(c.int("where%d" % i, 0, len(every) - 1))] for i in range(n)]
    recs = {}
    for k in every:
        here = [fields(i, k[0], k[1], ID=["B/1      ", "B2       "][i % 2]) for i in range(n) if where[i] == k]
        if here:
            recs[k] = here
    for k in run:
        c.assume(any(w in months(*k) for w in where))
    bad = [c.choice("bad%d" % i, [None, ("POS", "blklst"), ("SST", "clim")]) for i in range(n)]
    drift = [c.flag("drifter%d" % i) for i in range(n)]
    trk = [c.flag("trk%d" % i) for i in range(n)]
    tracked, fresh = [], []

    def base(self, parameters):
        fresh.append(self.get_qc("POS", "trk") == 9 and self.get_qc("POS", "month_match") == 9)
        clean(self, parameters)
        u = int(self.getvar("UID")[1:])
        self.set_qc("POS", "isdrifter", 1 if drift[u] else 0)
        if bad[u]:
            self.set_qc(bad[u][0], bad[u][1], 1)

    def fail(uid):
        u = int(uid[1:])
        tracked.append(u)
        return 1 if trk[u] else 0
    mq, fs = world(c, prog, run[0], recs, nothing, base, tracking=True, until=run[-1])
    ships, decks = record_checks(c, prog, fail)
    old, marks = ex.Deck.mds_buddy_check, []

    def noting(self, intype, s, parameters):
        old(self, intype, s, parameters)
        marks.append([(r.getvar("UID"), r.get_qc("POS", "month_match")) for r in self.reps])
    c.patch(ex.Deck, "mds_buddy_check", noting)
    mq.main([])
    variables = ("SST", "AT", "DPT", "SLP") if prog == "main" else ("SST",)
    per = sum(2 if v in ("SST", "AT") else 1 for v in variables)
    c.require(len(decks) == per * len(run) and len(marks) == len(variables) * len(run), "each month has its buddy checks")
    c.require(all(fresh), "the reports are read afresh for each month")
    files = {}
    seen = []
    for j, k in enumerate(run):
        inside = [i for i in range(n) if where[i] in months(*k)]
        names = sorted("U%05d" % i for i in inside)
        seen += [i for i in inside if bad[i] != ("POS", "blklst")]
        for d in decks[per * j:per * (j + 1)]:
            c.require(sorted(d[3]) == names, "the reports of the three months around it, each once")
            who = sorted("U%05d" % i for i in inside if bad[i] is None or d[1] != "SST" and bad[i][0] == "SST")
            if d[1] != "AT":
                c.require(sorted(d[2]) == sorted(u for u in who if not trk[int(u[1:])]),
                          "what passed the checks before goes into the buddy checks")
        for mk in marks[len(variables) * j:len(variables) * (j + 1)]:
            c.require(sorted(mk) == [(u, 1 if where[int(u[1:])] == k else 0) for u in names], "marked as of that month or not")
        out = "/out/%04d/%02d/" % k
        now = ["U%05d" % i for i in range(n) if where[i] == k]
        name = "%04d%02d_%s" % (k[0], k[1], "hires_run7" if prog == "hires" else "run7")
        for t in ["Variables"] * (prog == "main") + (["POS_qc", "SST_qc"] if prog == "main" else ["SST_qc"]) * (prog != "track"):
            got, end = rows(fs, out + "%s_%s.csv" % (t, name))
            c.require(end and sorted(g["UID"] for g in got) == now, "the reports of that month are written")
        ids = [["B/1      ", "B2       "][i] for i in (0, 1) if any(drift[x] and where[x] == k and x % 2 == i for x in range(n))]
        c.require(sorted(fs.files[out + "ID_file.txt"].split("\n")[:-1]) == sorted(x + "," + ex.safe_filename(x) for x in ids),
                  "the drifters of that month")
    c.require(sorted(tracked) == sorted(seen), "each month checks the tracks of its own reports, once")
    c.require(sorted({f[:13] for f in fs.files if f.startswith("/out/")}) == sorted("/out/%04d/%02d/" % k for k in run),
              "each month has its own directory")


@harness(time=150)
def deck_files(c, p):
    """the smaller output, and the names of test runs"""
    test, small = c.flag("test"), c.flag("small")
    fs = FS({}, ["/d"])
    c.patch(ex, "open", fs.open)
    d = ex.Deck()
    where = [c.choice("w%d" % i, [(2003, 1), (2003, 2), (2004, 1)]) for i in range(2)]
    import rep as R
    for i in range(2):
        r = R.report(**fields(i, where[i][0], where[i][1]))
        mark(r, i)
        d.append(r)
    (d.write_min_output if small else d.write_output)("r", "/d", 2003, 1, test=test)
    pre = "/d/Test_" if test else "/d/"
    tabs = MIN if small else QC
    c.require(sorted(fs.files) == sorted([pre + "Variables_200301_r.csv"] + [pre + "%s_qc_200301_r.csv" % t for t in tabs]), "the files")
    who = [i for i in range(2) if where[i] == (2003, 1)]
    for f in fs.files:
        got, end = rows(fs, f)
        c.require(end and f in fs.closed and [g["UID"] for g in got] == ["U%05d" % i for i in who], "the reports of the month")
        t = f[len(pre):].split("_")[0]
        for g in got:
            c.require(g["n"], "as many columns as in the header")
            if t == "Variables":
                c.require(same(g["SST"], 15.0) and same(g["AT"], 14.0) and same(g["DPT"], 9.0), "values in their columns")
            else:
                c.require([k for k in g if k not in ("UID", "n")] == tabs[t], "the flags of its kind")
                c.require(all(g[k] == str(code(t, k, int(g["UID"][1:]))) for k in tabs[t]), "each flag in its column")
