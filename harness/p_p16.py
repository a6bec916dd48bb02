"""Runs of saturated reports."""
from api import again, harness
import Extended_IMMA as ex
import qc
import geo
import rep as R

BOUNDS = "voyages of 0..6 reports (thorough: 8) in time order, every pattern of saturated reports (temperatures real, any "\
         "missing), every time between reports, shortest run 0..5, every time threshold 0..100 h"
ASSUMPTIONS = ["reports have an hour; the time difference function itself is settled by another property"]


@harness(quick=[{"n": i} for i in range(7)], thorough=[{"n": i} for i in range(9)], time=200)
def runs(c, p):
    n = p["n"]
    v = ex.Voyage()
    t = [c.float("t%d" % i, 0.0, 1000.0) for i in range(n)]
    for a, b in zip(t, t[1:]):
        c.assume(a <= b)
    geo.stub(c, times=False)
    # time difference of reports: the elapsed hours, by the day number that stands for the report
    c.patch(qc, "time_difference", lambda y1, m1, d1, h1, y2, m2, d2, h2: t[d2 - 1] - t[d1 - 1])
    sat = []
    for i in range(n):
        r = R.report(ID="SHIP", UID=str(i), LAT=0.0, LON=0.0, YR=2000, MO=1, DY=i + 1, HR=0.0)
        k = c.concretise(c.int("k%d" % i, 0, 1)) if i % 2 else c.concretise(c.int("k%d" % i, 0, 2))
        at = c.float("at%d" % i, -50.0, 50.0)
        if k == 0:
            r.setvar("AT", at)
            r.setvar("DPT", at)
        elif k == 1:
            d = c.float("dpt%d" % i, -50.0, 50.0)
            c.assume(d != at)
            r.setvar("AT", at)
            r.setvar("DPT", d)
        sat.append(k == 0)
        r.set_qc("DPT", "repsat", (i * 3) % 10)
        v.reps.append(r)
    q = c.shared("settings", lambda: {"min_time_threshold": c.float("threshold", 0.0, 100.0), "shortest_run": c.int("shortest", 0, 5)})
    v.find_saturated_runs(q)
    c.require(len(v) == n, "no report is lost")
    for i in range(n):
        got = v.get_qc(i, "DPT", "repsat")
        if not sat[i]:
            c.require(got == 0, "an unsaturated report is never flagged")
            continue
        a, b = i, i
        while a > 0 and sat[a - 1]:
            a -= 1
        while b < n - 1 and sat[b + 1]:
            b += 1
        # a run whose reports have one time is taken to last no time
        bad = b - a + 1 > q["shortest_run"] and t[b] - t[a] >= q["min_time_threshold"]
        c.require((got == 1) == bad, "flagged exactly in runs longer than the shortest run that last the threshold or more")
        c.require(got == 0 or got == 1, "0 or 1")


again("runs", quick=[{"n": 2}, {"n": 3, "then": {"n": 1}}], time=100)
