"""The tracking QC: from the files of the main QC through the drifter checks to its output."""
from api import harness
import BackgroundField as bf
import Extended_IMMA as ex
import tracking_qc as tr
import rep as R
from fakefs import FS, Args, Config

BOUNDS = "records of up to 3 reports (thorough: 4) in one or two months, written by the writer of the main QC, each with at most "\
         "one failing flag (any one), any order in time, values from a small set including missing ones, three identifiers"
ASSUMPTIONS = ["files and the command line are stand-ins", "every report has a position and an identifier of 9 characters",
               "each check is replaced by one that fails any reports it gets"]

POS = ["isbuoy", "date", "time", "pos", "blklst"]
SST = ["clim", "nonorm", "freez", "noval", "rep", "hardlimit"]
CHECKS = [("new_buoy_aground_check", [("POS", "drf_agr")]), ("new_buoy_speed_check", [("POS", "drf_spd")]),
          ("buoy_tail_check", [("SST", "drf_tail1"), ("SST", "drf_tail2")]),
          ("buoy_bias_noise_check", [("SST", "drf_bias"), ("SST", "drf_noise"), ("SST", "drf_short")])]
PAR = {"runid": "run7", "new_buoy_aground_check": {"a": 1}, "new_buoy_speed_check": {"b": 1}, "IQUAM_track_check": {"c": 1},
       "buoy_tail_check": {"d": 1}, "buoy_bias_noise_check": {"e": 1}, "buoy_aground_check": {"f": 1}, "buoy_speed_check": {"g": 1}}
VALUES = {"SST": [None, 10.5, -1.25], "OSTIA": [None, 9.5, 0.0], "ICE": [None, 0.0, 0.25], "BGVAR": [None, 0.01, 0.5],
          "AT": [None, 7.5]}


def report(ident, k, month, day, hour, vals):
    r = R.report(ID=ident, UID="U%05d" % k, YR=2003, MO=month, DY=day, HR=hour, LAT=float(k), LON=2.0 * k, PT=7,
                 SST=vals.get("SST", 10.5), AT=vals.get("AT"))
    for v in ("SST", "AT", "DPT", "SLP"):
        r.add_climate_variable(v, 5.0)
    for v, x in (("OSTIA", 9.5), ("ICE", 0.0), ("BGVAR", 0.01)):
        r.setext(v, vals.get(v, x))
    for f in ["day", "isship", "trk", "date", "time", "pos", "blklst", "iquam_track"]:
        r.set_qc("POS", f, 0)
    r.set_qc("POS", "isbuoy", 1)
    r.set_qc("POS", "isdrifter", 1)
    for f in ["bud", "clim", "nonorm", "freez", "noval", "nbud", "bbud", "rep", "spike", "hardlimit"]:
        r.set_qc("SST", f, 0)
    return r


def world(c, reps, ident, edge, months):
    """what the main QC leaves behind, and the tracking QC is run on"""
    fs = FS({"/par.json": '{"runid": "run7"}'}, ["/out", "/track"])
    c.patch(ex, "open", fs.open)
    if not months:
        return fs
    for m in months:
        fs.dirs.add("/out/2003/%02d" % m)
        v = ex.Voyage()
        v.reps = list(reps)
        v.write_output("run7", "/out/2003/%02d" % m, 2003, m)
    for mod in (bf, tr):
        c.patch(mod, "os", fs)
    c.patch(tr, "open", fs.open)
    c.patch(tr, "ConfigParser", Config({("Directories", "out_dir"): "/out", ("Directories", "track_out_dir"): "/track",
                                        ("Files", "parameter_file"): "/par.json"}))

    class Json:
        def load(self, f):
            return PAR
    c.patch(tr, "json", Json())
    c.patch(tr, "argparse", Args(config="cfg", id=ident.strip(), yr1=2003, mn1=months[0], yr2=2003, mn2=months[-1], edge=edge,
                                 runmonthid="200301-200312"))
    return fs


def record_checks(c, fail):
    """replaces the checks; returns what each was given: identifiers of the reports and parameters"""
    given = []
    for name, flags in CHECKS:
        def check(self, *a, **k):
            uids = [r.getvar("UID") for r in self.reps]
            given.append((None, uids, tuple(x for x in a if not isinstance(x, bool))))
            for i, r in enumerate(self.reps):
                for t, f in dict(CHECKS)[CHECKS[len(given) - 1][0]]:
                    r.set_qc(t, f, 1 if fail(f, r.getvar("UID")) else 0)
        c.patch(ex.Voyage, name, check)
    return given


def in_time(reps):
    return [r.getvar("UID") for r in sorted(reps, key=lambda r: (r.getvar("MO"), r.getvar("DY"), r.getvar("HR")))]


@harness(quick=[{"n": 1, "f": 1}, {"n": 2, "f": 0}, {"n": 3, "f": 0}],
         thorough=[{"n": 1, "f": 1}, {"n": 2, "f": 1}, {"n": 3, "f": 0}, {"n": 4, "f": 0}], time=250)
def passed_on(c, p):
    """each check gets exactly the reports that pass what is asked before it, in time order"""
    n = p["n"]
    reps, fault = [], []
    for i in range(n):
        r = report("51514    ", i, 3, 5, [12.0, 6.0, 18.0, 1.0][i], {})
        k = c.concretise(c.int("fault%d" % i, 0, len(POS) + len(SST) + 1)) if (i == n - 1 or p["f"]) else 0
        f = None
        if 0 < k <= len(POS):
            f = ("POS", POS[k - 1])
            r.set_qc("POS", POS[k - 1], 0 if POS[k - 1] == "isbuoy" else 1)
        elif 0 < k <= len(POS) + len(SST):
            f = ("SST", SST[k - 1 - len(POS)])
            r.set_qc("SST", SST[k - 1 - len(POS)], 1)
        elif k:
            b = c.concretise(c.int("bbud%d" % i, 2, 5))
            r.set_qc("SST", "bbud", b)
            f = ("SST", "bbud") if b >= 4 else None
        fault.append(f)
        reps.append(r)
    world(c, reps, "51514    ", ["regular"], [3])
    bad = {}

    def fail(f, uid):
        i = int(uid[1:])
        if (f, i) not in bad:
            bad[f, i] = c.flag("fails_%s_%d" % (f, i)) if i == 0 or f == "drf_agr" or p["f"] else False
        return bad[f, i]
    given = record_checks(c, fail)
    out = []
    c.patch(ex.Voyage, "write_tracking_output", lambda self, *a: out.append((a, list(self.reps))))
    tr.main([])
    c.require(len(given) == 4, "all four checks run once")
    base = [i for i in range(n) if not (fault[i] and fault[i][0] == "POS")]
    good = [i for i in base if not fault[i] and not bad.get(("drf_agr", i)) and not bad.get(("drf_spd", i))]
    last = [i for i in good if not bad.get(("drf_tail1", i)) and not bad.get(("drf_tail2", i))]
    par = [(PAR["new_buoy_aground_check"],), (PAR["IQUAM_track_check"], PAR["new_buoy_speed_check"]), (PAR["buoy_tail_check"],),
           (PAR["buoy_bias_noise_check"],)]
    for k, who in enumerate((base, base, good, last)):
        c.require(given[k][1] == in_time([reps[i] for i in who]), "check %d: the reports that passed so far, in time order" % k)
        c.require(given[k][2] == par[k], "check %d: with its parameters" % k)
    c.require(len(out) == 1 and [r.getvar("UID") for r in out[0][1]] == in_time(reps), "all reports are written, in time order")
    for r in out[0][1]:
        i = int(r.getvar("UID")[1:])
        for k, who in enumerate((base, base, good, last)):
            for t, f in CHECKS[k][1]:
                x = r.get_qc(t, f)
                c.require(x == ((1 if bad.get((f, i)) else 0) if i in who else 9), "with the flags of the checks they were given to")


@harness(quick=[{"id": "51514    "}, {"id": "A/B*7    "}], time=150)
def values(c, p):
    """what the main QC wrote is what the tracking QC works on"""
    reps = []
    k = c.concretise(c.int("which", 0, 3))
    for i in range(2):
        vals = {}
        if i == 0:
            for v in ("SST", "AT") if k == 0 else ("OSTIA",) if k == 1 else ("ICE",) if k == 2 else ("BGVAR", "SST"):
                vals[v] = c.choice("%s%d" % (v, i), VALUES[v])
        hour = None if i and k == 3 and c.flag("nohour") else 6.25
        r = report(p["id"], i, 3 + i, 5 + i, hour, vals)
        r.set_qc("SST", "bbud", c.concretise(c.int("bbud%d" % i, 0, 9)) if k == 0 else 1)
        reps.append(r)
    world(c, reps, p["id"], ["regular"], [3, 4])
    record_checks(c, lambda f, u: False)
    out = []
    c.patch(ex.Voyage, "write_tracking_output", lambda self, *a: out.append((a, list(self.reps))))
    tr.main([])
    c.require(len(out) == 1 and len(out[0][1]) == 2, "every report is there")
    by = {r.getvar("UID"): r for r in out[0][1]}
    for r in reps:
        q = by[r.getvar("UID")]
        for v in ("ID", "YR", "MO", "DY", "HR", "LAT", "LON", "PT", "SST", "AT", "OSTIA", "ICE", "BGVAR"):
            a, b = r.getvar(v), q.getvar(v)
            c.require((a is None and b is None) or (a is not None and b is not None and a == b), "%s is what it was" % v)
        for t, f in [("POS", x) for x in POS + ["trk", "iquam_track", "isdrifter"]] + [("SST", x) for x in SST + ["bbud", "bud"]]:
            c.require(r.get_qc(t, f) == q.get_qc(t, f), "%s %s is what it was" % (t, f))


@harness(time=100)
def outputs(c, p):
    """the output goes where the kind of the chunk says"""
    kinds = ["new", "regular", "start_edge_case", "end_edge_case"]
    edge = [k for k in kinds if c.flag(k)]
    c.assume(len(edge) > 0)
    reps = [report("51514    ", i, 3, 5 + i, 6.0, {}) for i in range(2)]
    fs = world(c, reps, "51514    ", edge, [3])
    record_checks(c, lambda f, u: False)
    before = set(fs.files)
    tr.main([])
    new = sorted(f for f in fs.files if f not in before)
    name = "Tracking_200303_51514    _run7.csv"
    want = []
    if "new" in edge or "regular" in edge:
        want.append("/track/TrackingQC/2003/03/" + name)
    for k in ("start_edge_case", "end_edge_case"):
        if k in edge:
            want.append("/track/TrackingQC/2003/03/%s_200301-200312/%s" % (k, name))
    c.require(new == sorted(want), "in the directory of its month, and of the edge case")
    for f in new:
        c.require(f.rsplit("/", 1)[0] in fs.dirs and f in fs.closed, "the directory is made first, the file is closed")
        lines = fs.files[f].split("\n")
        c.require(len(lines) == 4 and lines[-1] == "", "a header and one line each")
        head = lines[0].split(",")
        for i in (0, 1):
            row = dict(zip(head, lines[i + 1].split(",")))
            c.require(len(lines[i + 1].split(",")) == len(head), "as many columns as in the header")
            c.require(row["UID"] == "U%05d" % i and row["drf_agr"] == "0" and row["drf_tail2"] == "0" and row["drf_short"] == "0"
                      and row["bbud"] == "0" and row["isbuoy"] == "1" and row["SST"] == "10.5" and row["BGVAR"] == "0.01"
                      and row["DATE"] == "2003-03-%02d" % (5 + i), "with its values and flags in their columns")


@harness(time=100)
def refuses(c, p):
    """files that do not belong together stop the tracking QC"""
    reps = [report("51514    ", i, 3, 5 + i, 6.0, {}) for i in range(2)]
    fs = world(c, reps, "51514    ", ["regular"], [3])
    given = record_checks(c, lambda f, u: False)
    out = []
    c.patch(ex.Voyage, "write_tracking_output", lambda self, *a: out.append(a))
    kind = c.concretise(c.int("file", 0, 2))
    what = c.concretise(c.int("what", 0, 5))
    name = sorted(f for f in fs.files if f.endswith(".csv"))[kind]
    lines = fs.files[name].splitlines(True)
    if what == 0:
        del fs.files[name]
    elif what == 1:
        fs.files[name] = ""
    elif what == 2:
        fs.files[name] = "".join(lines[:-1])
    elif what == 3:
        fs.files[name] = "".join([lines[0], lines[2], lines[1]])
    elif what == 4:
        for f in [f for f in fs.files if f.endswith(".csv")]:
            del fs.files[f]
    else:
        for f in [f for f in fs.files if f.endswith(".csv")]:
            fs.files[f] = fs.files[f].splitlines(True)[0]
    try:
        tr.main([])
        done = True
    except UserWarning:
        done = False
    c.require(not done and not given and not out, "refused before any check")
