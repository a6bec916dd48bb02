"""A deck hands out its reports one platform at a time."""
from api import harness
import Extended_IMMA as ex
import spherical_geometry as sph
import rep as R

BOUNDS = "decks of up to 4 reports (thorough: 5) of up to 3 platforms, an identifier possibly missing, every pattern of "\
         "passing reports, every order of their times; after appending, sorting, indexing, popping, splitting, in any "\
         "sequence of up to two (thorough: three) of these"
ASSUMPTIONS = ["distances and courses between reports are arbitrary (not part of this property)"]

IDS = ["AAA", "BBB", None]
OPS = ["nothing", "sort", "index", "pop first", "pop last", "append", "walk"]


def build(c, n, times):
    c.patch(sph, "sphere_distance", lambda *a: 1.0)
    c.patch(sph, "course_between_points", lambda *a: 1.0)
    reps = []
    seen = 0
    for i in range(n):
        k = c.concretise(c.int("id%d" % i, 0, min(seen, 2)))
        seen = max(seen, k + 1)
        r = R.report(ID=IDS[k], UID=str(i), LAT=0.0, LON=0.0, YR=2000, MO=1, DY=1, HR=0.0)
        if times:
            r.setvar("HR", c.int("hr%d" % i, 0, 23))
        reps.append(r)
    return reps


def key(r):
    return (r.getvar("ID") is not None, r.getvar("ID") or "")


def check(c, d, reps, ok, timed):
    """reps: the reports the deck should hold; ok: uids that pass"""
    c.require(sorted(r.getvar("UID") for r in d.reps) == sorted(r.getvar("UID") for r in reps), "no report lost or repeated")
    order = [r.getvar("UID") for r in d.reps]
    got = [[r for r in v.reps] for v in d.get_one_platform_at_a_time()]
    flat = [r.getvar("UID") for v in got for r in v]
    c.require(sorted(flat) == sorted(u for u in order if u in ok), "every passing report exactly once, no other")
    ids = []
    for v in got:
        if v:
            c.require(all(r.getvar("ID") == v[0].getvar("ID") for r in v), "one platform at a time")
            ids.append(v[0].getvar("ID"))
            pos = [order.index(r.getvar("UID")) for r in v]
            c.require(pos == sorted(pos), "in the order of the deck")
            if timed:
                for a, b in zip(v, v[1:]):
                    c.require(a.getvar("HR") <= b.getvar("HR"), "in time order after sorting")
    c.require(len(ids) == len(set(ids)), "each platform once")


SEQ1 = [{"n": 3, "ops": (a, b)} for a in OPS for b in OPS if not (a == "nothing" and b != "nothing")]
SEQ2 = [{"n": 3, "ops": (a, b, d)} for a in OPS[1:] for b in OPS[1:] for d in OPS[1:]]


@harness(quick=[{"n": 4, "ops": ()}] + [s for s in SEQ1 if "sort" not in s["ops"]], thorough=[{"n": 5, "ops": ()}] + SEQ1 + SEQ2,
         time=100)
def sequence(c, p):
    n = p["n"]
    reps = build(c, n + 1, "sort" in p["ops"])
    extra = reps.pop()
    ok = []
    for i in range(n + 1):
        if c.flag("bad%d" % i):
            (reps + [extra])[i].set_qc("POS", "trk", 1)
        else:
            (reps + [extra])[i].set_qc("POS", "trk", 0)
            ok.append(str(i))
    d = ex.Deck()
    for r in reps:
        d.append(r)
    f = ex.QC_filter()
    f.add_qc_filter("POS", "trk", 0)
    d.add_filter(f)
    c.require(len(d) == n, "the deck counts its reports")
    hold = list(reps)
    for op in p["ops"]:
        if op == "sort":
            d.sort()
            hold = list(d.reps)
        elif op == "index":
            d.index_by_id()
        elif op == "pop first" and len(d):
            x = d.pop(0)
            c.require(x is hold[0], "the first report is popped")
            hold = hold[1:]
        elif op == "pop last" and len(d):
            x = d.pop(len(d) - 1)
            c.require(x is hold[-1], "the last report is popped")
            hold = hold[:-1]
        elif op == "append" and extra is not None:
            d.append(extra)
            hold = hold + [extra]
            extra = None
        elif op == "walk":
            check(c, d, hold, ok, False)
    check(c, d, hold, ok, bool(p["ops"]) and p["ops"][-1] == "sort")


@harness(quick=[{"n": 3}], thorough=[{"n": 3}, {"n": 4}], time=100)
def sorting(c, p):
    """sort puts the deck in platform-then-time order"""
    reps = build(c, p["n"], True)
    d = ex.Deck()
    for r in reps:
        d.append(r)
    d.sort()
    for a, b in zip(d.reps, d.reps[1:]):
        ka, kb = key(a), key(b)
        c.require(ka <= kb, "ordered by identifier, missing ones first")
        if ka == kb:
            c.require(a.getvar("HR") <= b.getvar("HR"), "then by time")
    check(c, d, reps, [r.getvar("UID") for r in reps], True)
