"""Which stretches of a drifter's record are tracked, and when."""
from api import harness
import Tracking_QC_wrapper as tw
import YMCounter as ym
import spec
from fakefs import FS, Args, Config

BOUNDS = "series of up to 7 months (thorough: 9; from any month of the year up to 4, 6) with any months present, any gap from 1 to 14 months; for the wrapper up to 5 "\
         "months from any month of the year and two drifters"
ASSUMPTIONS = ["files, the batch queue and the command line are stand-ins"]


def chunks(there, gap):
    """index of first and last month of each chunk"""
    out = []
    for i, x in enumerate(there):
        if x:
            if out and i - out[-1][1] <= gap:
                out[-1][1] = i
            else:
                out.append([i, i])
    return [tuple(k) for k in out]


def kinds(first, last, n, gap):
    k = set()
    if first < gap:
        k.add("start_edge_case")
    if n - 1 - last < gap:
        k.add("end_edge_case")
    if n - 1 - last == gap:
        k.add("new")
    if "start_edge_case" not in k and "end_edge_case" not in k:
        k.add("regular")
    return k


@harness(quick=[{"n": 1, "month": 0}, {"n": 2, "month": 0}, {"n": 4, "month": 0}, {"n": 7, "month": 9}],
         thorough=[{"n": k, "month": 0} for k in range(1, 7)] + [{"n": k, "month": 5} for k in (7, 8, 9)], time=250)
def cut(c, p):
    n = p["n"]
    m0 = p["month"] or c.int("month", 1, 12)
    gap = c.int("gap", 1, 14)
    there = [c.flag("there%d" % i) for i in range(n)]
    months = []
    y, m = 1999, m0
    for i in range(n):
        months.append((y, m))
        y, m = (y + 1, 1) if m == 12 else (y, m + 1)
    g = ym.YMCounter(1999, m0, months[-1][0], months[-1][1])
    for i in range(n):
        if there[i]:
            g.setym(months[i][0], months[i][1], 1)
    want = chunks(there, gap)
    got = list(g.yield_start_and_end_dates(gap))
    c.require(len(got) == len(want), "cut exactly at the gaps")
    for (y1, m1, y2, m2, cl), (a, b) in zip(got, want):
        c.require(y1 == months[a][0] and m1 == months[a][1], "begins with its first month of data")
        c.require(y2 == months[b][0] and m2 == months[b][1], "ends with its last month of data")
        c.require(sorted(cl) == sorted(kinds(a, b, n, gap)), "classified by its distance from the ends of the series")


@harness(quick=[{"n": 4, "edge": e} for e in ("all", "standard", "new", "noend")],
         thorough=[{"n": 6, "edge": e} for e in ("all", "standard", "new", "noend")], time=300)
def wrapper(c, p):
    """the wrapper submits what its mode asks for, once"""
    n, edge = p["n"], p["edge"]
    m0 = c.concretise(c.int("month", 8, 12))
    gap = c.int("gap", 1, 3)
    ids = ["51514", "A 7"]
    months, files = [], {"/in/par.json": '{"runid": "run7"}'}
    y, m = 1999, m0
    there = [[], []]
    for i in range(n):
        months.append((y, m))
        text = ""
        for k in (0, 1):
            x = c.flag("there%d_%d" % (k, i)) if k == 0 else i == 1
            there[k].append(x)
            if x:
                text += ids[k] + ",7\n"
        files["/out/%d/%02d/ID_file.txt" % (y, m)] = text
        y, m = (y + 1, 1) if m == 12 else (y, m + 1)
    fs = FS(files)
    sent = []
    c.patch(tw, "open", fs.open)
    c.patch(tw, "os", fs)
    c.patch(tw, "ConfigParser", Config({("Directories", "out_dir"): "/out", ("Directories", "track_out_dir"): "/track",
                                        ("Files", "parameter_file"): "/in/par.json"}))
    c.patch(tw, "argparse", Args(config="cfg", gap=gap, yr1=1999, yr2=months[-1][0], mn1=m0, mn2=months[-1][1], edge=edge))
    c.patch(tw, "write_submission", lambda *a: sent.append(a))
    tw.main([])
    want = []
    for k in (0, 1):
        for a, b in chunks(there[k], gap):
            kk = kinds(a, b, n, gap)
            if edge == "all" or (edge == "standard" and "regular" in kk) or (edge == "new" and "new" in kk) or \
                    (edge == "noend" and "end_edge_case" not in kk):
                want.append((ids[k], months[a], months[b], kk))
    c.require(len(sent) == len(want), "as many as the mode asks for")
    for w in want:
        hits = [s for s in sent if s[1] == w[0] and (s[2], s[3]) == w[1] and (s[4], s[5]) == w[2]]
        c.require(len(hits) == 1, "each chunk the mode asks for is submitted once")
        for s in hits:
            c.require(sorted(s[6]) == sorted(w[3]), "with its kind")
            c.require(s[0] == "cfg" and s[8] == "/track" and s[9] == "run7"
                      and s[7] == "1999%02d-%d%02d" % (m0, months[-1][0], months[-1][1]), "with the settings of the run")


@harness(time=60)
def modes(c, p):
    """an unknown mode is refused before anything is read"""
    fs = FS()
    c.patch(tw, "open", fs.open)
    c.patch(tw, "ConfigParser", Config({}))
    edge = c.choice("edge", ["", "none", "New", "start_edge_case"])
    c.patch(tw, "argparse", Args(edge=edge))
    sent = []
    c.patch(tw, "write_submission", lambda *a: sent.append(a))
    try:
        tw.main([])
        done = True
    except Exception:
        done = False
    c.require(not done and not sent, "refused")


@harness(time=100)
def submission(c, p):
    """one job file and one submission, then waiting while the queue is full"""
    there = c.int("there", 0, 3)
    fs = FS({}, ["/t"] + ["/t/TrackingQC", "/t/TrackingQC/logs", "/t/TrackingQC/jobs"][:c.concretise(there)])
    queue = [c.int("queue%d" % i, 200, 300) for i in range(3)] + [250]
    asked, slept = [], []

    class Clock:
        def sleep(self, s):
            slept.append(s)

    def load(user):
        asked.append(user)
        return queue[len(asked) - 1]
    c.patch(tw, "open", fs.open)
    c.patch(tw, "os", fs)
    c.patch(tw, "time", Clock())
    c.patch(tw, "checkload", load)
    tw.write_submission("cfg.txt", "51514", 1999, 2, 2001, 11, ["start_edge_case", "new"], "199901-200112", "/t", "run7")
    jobs = [f for f in fs.files]
    c.require(len(jobs) == 1 and jobs[0].startswith("/t/TrackingQC/jobs/"), "one job file")
    c.require(len(fs.ran) == 1 and fs.ran[0] == "sbatch " + jobs[0], "submitted once")
    c.require(jobs[0] in fs.closed, "written before it is submitted")
    line = [x for x in fs.files[jobs[0]].split("\n") if "tracking_qc.py" in x]
    c.require(len(line) == 1, "runs the tracking QC once")
    for part in (" -id 51514 ", " -config cfg.txt ", " -yr1 1999 ", " -mn1 2 ", " -yr2 2001 ", " -mn2 11 ",
                 " -edge start_edge_case new ", " -runmonthid 199901-200112 "):
        c.require(part in line[0], "with the arguments of the chunk")
    k = 0
    while queue[k] > 250:
        k += 1
    c.require(len(asked) == k + 1 and len(slept) == k, "waits exactly while the queue holds more than 250 jobs")
