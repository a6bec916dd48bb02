"""The track check of a voyage."""
from api import again, harness
import Extended_IMMA as ex
import track_check as tc
import qc
import geo
import rep as R

BOUNDS = "voyages of 0..4 reports (thorough: 5) a given number of hours apart, arbitrary distances, courses, midpoint and "\
         "projection discrepancies, modal speed and limits; reported speeds any or missing, reported courses of some patterns; "\
         "full check: 0..6 reports (thorough: 7), arbitrary outcome of every pass"
ASSUMPTIONS = ["great-circle geometry and the modal speed are arbitrary functions of their arguments",
               "the elements of the check are settled by other properties"]

KM = 0.539957


def voyage(c, n, p, ident="SHIP5678"):
    v = ex.Voyage()
    rs = []
    for i in range(n):
        d, h = divmod(p.get("hours", (0, 6, 12, 18, 24, 30, 36, 42))[i], 24)
        r = R.report(ID=ident, UID=str(i), YR=p.get("year", 1950), MO=1, DY=1 + d, HR=float(h), LAT=float(i), LON=float(-i),
                     DCK=p.get("deck", 1), PT=p.get("pt", 5))
        rs.append(r)
        v.add_report(r)
        q = p.get("dsi", (None,) * 8)[i]
        r.setext("dsi", q)
        k = p.get("vsi", "x" * 8)[i]
        r.setext("vsi", None if k == "-" else c.float("vsi%d" % i, 0.0, 60.0))
    return v, rs


def mode(c):
    c.patch(tc, "modesp", lambda sp: c.uf("mode", *sp, lo=8.5 / KM, hi=34.5 / KM))


SHAPES = [{"n": 3, "dsi": (0, 90, 45)}, {"n": 3, "vsi": "xx-"}, {"n": 3, "vsi": "x-x", "dsi": (None, 0, 0)},
          {"n": 3, "hours": (0, 0, 5), "dsi": (180, 180, 180)}, {"n": 4, "vsi": "----"}]
DEEP = SHAPES + [{"n": 3, "dsi": (a, b, 0)} for a in (0, 90, 315, 360, None) for b in (0, 135, 225, None)] + \
    [{"n": 4, "vsi": "-xxx"}, {"n": 4, "dsi": (0, 90, 90, 180)}, {"n": 5, "vsi": "--------"}]


def expected(c, v, rs, q):
    """the flags a pass is to give"""
    n = len(rs)
    v.calc_alternate_speeds()
    sp = [r.getvar("speed") for r in rs]
    alt = [r.getvar("alt_speed") for r in rs]
    amax = tc.set_speed_limits(tc.modesp(sp))[0]
    f, b, m = v.distr1(), v.distr2(), v.midpt()
    out = [False] * n
    for i in range(1, n - 1):
        first = sp[i] > amax and alt[i - 1] is not None and alt[i - 1] > amax
        second = sp[i + 1] > amax and alt[i + 1] is not None and alt[i + 1] > amax
        both = sp[i] > amax and sp[i + 1] > amax
        fast = first or second or both
        x, y = rs[i - 1], rs[i]
        bad = tc.check_distance_from_estimate(y.getvar("vsi"), x.getvar("vsi"), y.getvar("time_diff"), f[i], b[i]) > 0 or \
            tc.direction_continuity(y.getvar("dsi"), x.getvar("dsi"), y.getvar("course"), q["max_direction_change"]) > 0 or \
            tc.speed_continuity(y.getvar("vsi"), x.getvar("vsi"), sp[i], q["max_speed_change"]) > 0 or \
            sp[i] > q["max_absolute_speed"] / KM
        out[i] = bool(m[i] > q["max_midpoint_discrepancy"] / KM and fast and bad)
    return out


@harness(quick=SHAPES, thorough=DEEP, time=250)
def one_pass(c, p):
    geo.stub(c, times=False)
    mode(c)
    v, rs = voyage(c, p["n"], p)
    q = c.shared("settings", lambda: {
        "max_direction_change": c.float("dir", 0.0, 180.0), "max_speed_change": c.float("dv", 0.0, 50.0),
        "max_absolute_speed": c.float("top", 0.0, 100.0), "max_midpoint_discrepancy": c.float("mid", 0.0, 500.0)})
    v.track_check(q)
    w = expected(c, v, rs, q)
    for i, r in enumerate(rs):
        c.require(r.get_qc("POS", "trk") == (1 if w[i] else 0), "fails exactly when too fast, off the midpoint and inconsistent")
        c.require(r.get_qc("POS", "few") == 0, "there are enough reports")


@harness(quick=SHAPES, thorough=DEEP, time=250)
def mds_pass(c, p):
    geo.stub(c, times=False)
    mode(c)
    v, rs = voyage(c, p["n"], p)
    q = {"max_direction_change": 60.0, "max_speed_change": 10.0, "max_absolute_speed": 40.0, "max_midpoint_discrepancy": 150.0}
    got = tc.mds_track_check(v)
    w = expected(c, v, rs, q)
    c.require(len(got) == len(rs), "one flag per report")
    for i, r in enumerate(rs):
        c.require(got[i] == (1 if w[i] else 0), "fails exactly when too fast, off the midpoint and inconsistent")
        c.require(r.get_qc("POS", "bad_track") == got[i], "the report carries the flag")
        c.require(r.get_qc("POS", "fewsome_check") == 0, "there are enough reports")


Q = {"max_direction_change": 60.0, "max_speed_change": 10.0, "max_absolute_speed": 40.0, "max_midpoint_discrepancy": 150.0}


@harness(quick=[{"n": i} for i in range(5)], time=100)
def exempt(c, p):
    """short voyages, generic identifiers and buoys"""
    geo.stub(c, times=False)
    mode(c)
    n = p["n"]
    deck, year = c.int("deck", 0, 999), c.int("year", 1850, 2020)
    pt = c.opt("pt", lambda k: c.int(k, 0, 21))
    ident = c.choice("id", ["SHIP5678", "SHIP     ", "         ", "00000    "])
    v, rs = voyage(c, n, {"vsi": "--------"}, ident)
    for r in rs:
        r.setvar("DCK", deck)
        r.setvar("YR", year)
        r.setvar("PT", float("nan") if pt is None else pt)
    c.require(len(v) == n, "no report is lost")
    if n >= 3 and not (qc.id_is_generic(ident, year) or pt == 6 or pt == 7):
        return
    v.track_check(Q)
    generic = qc.id_is_generic(ident, year) or pt == 6 or pt == 7
    for r in rs:
        c.require(r.get_qc("POS", "trk") == 0, "not track checked: not failed")
        few = 0 if generic or (deck == 720 and year < 1891) else 1
        c.require(r.get_qc("POS", "few") == few, "the few flag marks voyages of one or two reports")


@harness(quick=[{"n": i} for i in range(4)], time=100)
def mds_exempt(c, p):
    geo.stub(c, times=False)
    mode(c)
    n = p["n"]
    deck, year = c.int("deck", 0, 999), c.int("year", 1850, 2020)
    ident = c.choice("id", ["SHIP5678", "SHIP     ", "         ", "00000    "])
    v, rs = voyage(c, n, {"vsi": "--------"}, ident)
    for r in rs:
        r.setvar("DCK", deck)
        r.setvar("YR", year)
    generic = bool(qc.id_is_generic(ident, year))
    if n >= 3 and not generic:
        c.require(True, "checked")
        return
    got = tc.mds_track_check(v)
    c.require(len(got) == n and all(x == 0 for x in got), "one flag per report, none failed")
    for r in rs:
        few = not generic and not (deck == 720 and year < 1891)
        c.require((r.get_qc("POS", "fewsome_check") == 1) == few, "the few flag marks voyages of one or two reports")


@harness(quick=[{"n": i} for i in range(8)], thorough=[{"n": i} for i in range(9)], time=250)
def full(c, p):
    """the passes: whoever fails is left out of the next one"""
    geo.stub(c, times=False)
    n = p["n"]
    v, rs = voyage(c, n, {"vsi": "--------"})
    asked = []

    def one(voy):
        ids = [r.getvar("UID") for r in voy.rep_feed()]
        k = len(asked)
        # a pass never fails the first or the last report of its voyage
        fl = [0 if i in (0, len(ids) - 1) else c.concretise(c.int("fail%d_%s" % (k, u), 0, 1)) for i, u in enumerate(ids)]
        asked.append((ids, fl))
        return list(fl)
    c.patch(tc, "mds_track_check", one)
    out = tc.mds_full_track_check(v)
    c.require(out is v, "the voyage itself")
    left = [str(i) for i in range(n)]
    c.require(len(asked) >= 1 and len(asked) <= 5, "one to five passes")
    for k, (ids, fl) in enumerate(asked):
        c.require(ids == left, "each pass checks those who have not failed, in order")
        left = [u for u, f in zip(ids, fl) if f == 0]
        if k < len(asked) - 1:
            c.require(any(f == 1 for f in fl), "another pass only after a failure")
        else:
            c.require(k == 4 or all(f == 0 for f in fl), "passes go on until nobody fails")
    for r in rs:
        c.require(r.get_qc("POS", "bad_track") == (0 if r.getvar("UID") in left else 1), "flagged exactly who failed a pass")


again("one_pass", quick=[dict(SHAPES[0], then={"vsi": "xx-"})], time=100)
