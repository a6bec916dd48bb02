"""QC filters: what passes, and how a deck is split."""
from api import harness
import Extended_IMMA as ex
import rep as R

BOUNDS = "decks of up to 3 reports (thorough: 4), filters of up to 3 conditions over 4 flags of several types, every flag "\
         "unset or any of 0..9, every wanted status 0..9"
ASSUMPTIONS = []

FLAGS = [("POS", "date"), ("POS", "trk"), ("SST", "noval"), ("AT", "noval")]


def flags(c, n, r, which):
    got = {}
    for k in which:
        v = c.int("%s_%s%s" % (n, k[0], k[1]), 0, 9)
        if c.flag("%s_%s%s_set?" % (n, k[0], k[1])):
            r.set_qc(k[0], k[1], v)
            got[k] = v
        else:
            got[k] = 9
    return got


def conditions(c, n):
    out = []
    for i in range(n):
        out.append((c.choice("cond%d" % i, FLAGS), c.int("want%d" % i, 0, 9)))
    return out


def make(conds):
    f = ex.QC_filter()
    for k, w in conds:
        f.add_qc_filter(k[0], k[1], w)
    return f


def passes(got, conds):
    ok = True
    for k, w in conds:
        if got.get(k, 9) != w:
            ok = False
    return ok


@harness(quick=[{"n": 0}, {"n": 1}, {"n": 2}, {"n": 3}], time=120)
def single(c, p):
    conds = conditions(c, p["n"])
    r = R.report(ID="SHIP", UID="A")
    got = flags(c, "r", r, FLAGS[:3])
    t = make(conds).test_report(r)
    c.observe("t", t)
    c.require(t == 0 or t == 1, "0 or 1")
    c.require((t == 0) == passes(got, conds), "a report passes exactly when every listed flag has its wanted status")
    for k in FLAGS[:3]:
        c.require(r.get_qc(k[0], k[1]) == got[k], "testing changes no flag")


def deck(c, n, which):
    d, reps, got = ex.Deck(), [], []
    for i in range(n):
        r = R.report(ID="SHIP%d" % (i % 2), UID=str(i))
        got.append(flags(c, "r%d" % i, r, which))
        reps.append(r)
        d.append(r)
    return d, reps, got


@harness(quick=[{"n": 0}, {"n": 1}, {"n": 3}], thorough=[{"n": i} for i in range(5)], time=150)
def split(c, p):
    n = p["n"]
    which = FLAGS[:1]
    conds = [(FLAGS[0], c.int("want", 0, 9))]
    d, reps, got = deck(c, n, which)
    good, bad = make(conds).split_reports(d)
    ok = [passes(g, conds) for g in got]
    wg = [r.getvar("UID") for r, k in zip(reps, ok) if k]
    wb = [r.getvar("UID") for r, k in zip(reps, ok) if not k]
    c.require([r.getvar("UID") for r in good.reps] == wg, "the passing reports, in their order")
    c.require([r.getvar("UID") for r in bad.reps] == wb, "the failing reports, in their order")
    c.require(all(any(r is x for x in reps) for r in good.reps + bad.reps), "the reports themselves")
    c.require(len(d) == 0, "nothing is left over")


@harness(quick=[{}], time=60)
def whole_deck(c, p):
    d, reps, got = deck(c, 2, FLAGS[:2])
    v = c.int("v", -2, 12)
    refused = False
    try:
        d.set_qc("POS", "date", v)
    except AssertionError:
        refused = True
    c.require(refused == (not (0 <= v and v <= 9)), "only 0..9 is a flag value")
    for r, g in zip(reps, got):
        c.require(r.get_qc("POS", "date") == (g[FLAGS[0]] if refused else v), "every report of the deck gets the flag")
        c.require(r.get_qc("POS", "trk") == g[FLAGS[1]], "other flags stay")
