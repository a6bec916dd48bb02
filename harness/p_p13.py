"""The order of reports: by identifier, then by time."""
from api import again, harness
import Extended_IMMA as ex
import qc
import rep as R
import spec

BOUNDS = "identifiers of 0..2 printable characters or missing; every valid date of 1850-2025, every hour (quarters of an hour for pairs of one identifier); pairs and triples "\
         "of reports; sorting of up to 4 reports"
ASSUMPTIONS = ["date-times have the minute resolution the report class gives them",
               "the order laws are for reports that have a date-time"]


def dated(c, n, i=None, part=0):
    y, m, d = c.int("y" + n, 1850, 2025), c.int("m" + n, 1, 12), c.int("d" + n, 1, 31)
    c.assume(d <= spec.month_len(y, m))
    h = c.int("h" + n, 0, 23)
    r = R.report(ID=i, UID=n)
    r.data[R_index("YR")] = y
    r.data[R_index("MO")] = m
    r.data[R_index("DY")] = d
    r.setvar("HR", h + part / 4.0 if part else h)
    return r, (((y * 13 + m) * 32 + d) * 24 + h) * 4 + part       # in the same order as the times


def R_index(n):
    return ex.VARLIST.index(n)


def ident(c, n, k):
    return None if k is None else c.str("id" + n, k, k)


LEN = [None, 0, 1, 2]


def lt(a, b):
    """missing identifiers first"""
    if a is None or b is None:
        return a is None and b is not None
    return a < b


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


@harness(quick=[{"a": a, "b": b} for a in LEN for b in LEN], time=100)
def pair(c, p):
    i, j = ident(c, "a", p["a"]), ident(c, "b", p["b"])
    a, ta = dated(c, "a", i)
    b, tb = dated(c, "b", j)
    eq = bool(same(i, j))
    before = bool(lt(i, j)) or (eq and ta < tb)
    after = bool(lt(j, i)) or (eq and ta > tb)
    c.require((a > b) == after, "greater: higher identifier, or same and later")
    c.require((a < b) == before, "less: lower identifier, or same and earlier")
    c.require((a == b) == (eq and ta == tb), "equal: same identifier and time")
    c.require((a >= b) == (not before), "greater or equal is not less")
    c.require((a <= b) == (not after), "less or equal is not greater")


@harness(quick=[{"q": 0, "r": 1}, {"q": 3, "r": 1}, {"q": 2, "r": 2}], thorough=[{"q": q, "r": r} for q in range(4) for r in range(4)],
         time=100)
def minutes(c, p):
    """quarter hours"""
    a, ta = dated(c, "a", "A", p["q"])
    b, tb = dated(c, "b", "A", p["r"])
    c.require((a > b) == (ta > tb), "later")
    c.require((a < b) == (ta < tb), "earlier")
    c.require((a == b) == (ta == tb), "at the same time")
    c.require((a >= b) == (ta >= tb), "not earlier")
    c.require((a <= b) == (ta <= tb), "not later")


@harness(quick=[{}], time=100)
def undated(c, p):
    """a report without date-time is equal only to another one, and never greater within its platform"""
    a = R.report(ID="A", UID="1")
    b = R.report(ID="A", UID="2")
    d, t = dated(c, "d", "A")
    c.require(a == b, "neither has a time")
    c.require(not (a == d) and not (d == a), "one has a time")
    c.require(not (a > d) and not (d > a) and not (a > b), "not ordered by time")
    for x, y in ((a, b), (a, d), (d, a)):
        c.require((x >= y) == (x == y), "greater or equal is greater, or equal")
        c.require((x <= y) == (x == y), "less or equal is less, or equal")


@harness(quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 2}, {"n": 3}, {"n": 4}], time=100)
def voyage(c, p):
    """sorting a voyage puts it in time order and keeps every report"""
    import spherical_geometry as sph
    c.patch(sph, "sphere_distance", lambda *a: 1.0)
    c.patch(sph, "course_between_points", lambda *a: 1.0)
    c.patch(qc, "time_difference", lambda *a: 1.0)
    v = ex.Voyage()
    ts = {}
    for i in range(p["n"]):
        r, t = dated(c, str(i), "A")
        r.setvar("LAT", 0.0)
        r.setvar("LON", 0.0)
        ts[str(i)] = t
        v.reps.append(r)
    v.sort()
    c.require(sorted(r.getvar("UID") for r in v.rep_feed()) == sorted(ts), "every report once")
    o = [ts[r.getvar("UID")] for r in v.reps]
    for x, y in zip(o, o[1:]):
        c.require(x <= y, "in time order")
    c.require(v.last_rep() is v.getrep(p["n"] - 1), "the last report is the latest")


again("pair", quick=[{"a": a, "b": b} for a, b in ((LEN[0], LEN[0]), (LEN[-1], LEN[0]))], time=100)
