"""Records of a drifting buoy with matched backgrounds."""
import trackqc as tqc
import rep as R


def record(c, n, states=True, anoms=True, bgvar=(0.04, 0.5), choose_var=True, free=99):
    """n reports; returns (reps, usable, anomalies, variances): usable says whether the report is open to comparison; the temperatures from number free on are chosen from three"""
    reps, use, an, var, day = [], [], [], [], {}
    for i in range(n):
        r = R.report(ID="1234567", UID=str(i), YR=2003, MO=1, DY=1 + i, HR=0.0, LAT=float(i), LON=float(2 * i), PT=7)
        bg = 10.0
        sst = bg + float(i + 1)
        if anoms:
            sst = c.float("sst%d" % i, -10.0, 30.0) if i < free else c.choice("sst%d" % i, [10.0, 12.5, 6.0])
        x = sst - bg                    # the same arithmetic as a comparison with the background makes
        v = (bgvar[1] if c.flag("unsure%d" % i) else bgvar[0]) if choose_var else bgvar[0]
        ice, bgv = 0.0, bg
        s = c.int("state%d" % i, 0, 4) if states is True else 0
        day[1 + i] = False
        good = True
        if s == 1:
            day[1 + i], good = True, False
        elif s == 2:
            bgv, v, good = None, None, False
        elif s == 3:
            ice, good = c.float("ice%d" % i, 0.0, 1.0), False
            if ice <= 0.15:
                good = True
        elif s == 4:
            ice = None
        r.setvar("SST", sst)
        r.setext("OSTIA", bgv)
        r.setext("ICE", ice)
        r.setext("BGVAR", v)
        if i:
            r.setext("time_diff", 1.0)
        for f in ("drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"):
            r.set_qc("SST", f, 7)
        reps.append(r)
        use.append(good)
        an.append(x)
        var.append(v)
    c.patch(tqc, "track_day_test", lambda y, m, d, h, la, lo, lim=-2.5: day[d])
    return reps, use, an, var
