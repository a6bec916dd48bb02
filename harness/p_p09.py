"""Base QC of a report: every flag is the corresponding check of the report's own data."""
from api import again, harness
import qc
import rep as R

BOUNDS = "every variable a real in [-1000, 1100] with at most one (thorough: two) of values, normals, stdevs, date and place "\
         "missing; arbitrary limits; wind direction 0..720; year 1600..2100, month -5..20, day -5..40, hour -10..40; deck, "\
         "platform type as in the class tables"
ASSUMPTIONS = ["the single checks themselves are settled by other properties and serve as the reference here",
               "the elevation of the sun is an uninterpreted function"]

VARS = ("SST", "AT", "AT2", "DPT", "SLP", "W", "D", "SHU", "CRH")
OTHER = ("YR", "MO", "DY", "HR", "LAT", "LON", "PT", "DCK")


def limits(c, n):
    lo, hi = c.float(n + "_lo", -1000.0, 1100.0), c.float(n + "_hi", -1000.0, 1100.0)
    c.assume(hi > lo)
    return [lo, hi]


def pos(c, n, hi=50.0):
    x = c.float(n, 0.0, hi)
    c.assume(x > 0.0)
    return x


def params(c):
    sd = limits(c, "sd")
    c.assume(sd[0] > 0)
    sd2 = limits(c, "sd2")
    c.assume(sd2[0] > 0)
    return {"base": {"time_since_sun_above_horizon": c.float("since", 0.0, 12.0)},
            "SST": {"freezing_point": c.float("freezing", -5.0, 0.0), "freeze_check_n_sigma": c.float("nsig", 0.0, 5.0),
                    "maximum_anomaly": pos(c, "sst_max"), "hard_limits": limits(c, "sst")},
            "AT": {"maximum_anomaly": pos(c, "at_max"), "hard_limits": limits(c, "at"), "minmax_standard_deviation": sd,
                   "maximum_standardised_anomaly": pos(c, "at_std")},
            "DAT": {"maximum_anomaly": pos(c, "dat_max"), "hard_limits": limits(c, "dat")},
            "DPT": {"hard_limits": limits(c, "dpt"), "minmax_standard_deviation": sd2,
                    "maximum_standardised_anomaly": pos(c, "dpt_std")},
            "SLP": {"maximum_anomaly": pos(c, "slp_max"), "maximum_standardised_anomaly": pos(c, "slp_std"),
                    "lowbar": pos(c, "lowbar")},
            "W": {"hard_limits": limits(c, "w"), "variable_limit": pos(c, "var_lim")},
            "SHU": {"hard_limits": limits(c, "shu")}, "RH": {"hard_limits": limits(c, "rh")}}


def build(c, missing, used, norms, wet=True):
    """A report with the variables used; missing: names of what is left out."""
    v = {}
    for n in used:
        if n in ("YR",):
            v[n] = c.int(n, 1600, 2100)
        elif n == "MO":
            v[n] = c.int(n, -5, 20)
        elif n == "DY":
            v[n] = c.int(n, -5, 40)
        elif n == "HR":
            v[n] = c.float(n, -10.0, 40.0)
        elif n in ("PT", "DCK"):
            v[n] = c.int(n, 0, 99 if n == "PT" else 999)
        elif n == "LAT":
            v[n] = c.float(n, -100.0, 100.0)
        elif n == "LON":
            v[n] = c.float(n, -200.0, 400.0)
        elif n == "D":
            v[n] = c.float(n, 0.0, 720.0)
        else:
            v[n] = c.float(n, -1000.0, 1100.0)
        if n in missing:
            v[n] = None
    r = R.report(ID="SHIP     ", UID="ABC123")
    for n in used:
        if n not in ("YR", "MO", "DY", "HR"):
            r.setvar(n, v[n])
    i = [R_index(n) for n in ("YR", "MO", "DY", "HR") if n in used]
    for n, k in zip([n for n in ("YR", "MO", "DY", "HR") if n in used], i):
        r.data[k] = float("nan") if v[n] is None else v[n]
    for n in norms:
        cl, sd = c.float(n + "_clim", -1000.0, 1100.0), pos(c, n + "_stdev", 100.0)
        r.add_climate_variable(n, None if n + "_clim" in missing else cl, None if n + "_stdev" in missing else sd)
        v[n + "_clim"] = None if n + "_clim" in missing else cl
        v[n + "_stdev"] = None if n + "_stdev" in missing else sd
    return r, v


def R_index(n):
    import Extended_IMMA as ex
    return ex.VARLIST.index(n)


def flag(c, r, kind, name, want, what):
    c.require(r.get_qc(kind, name) == want, what)


def sst_flags(c, r, v, p):
    q = p["SST"]
    flag(c, r, "SST", "noval", qc.value_check(v["SST"]), "SST noval")
    flag(c, r, "SST", "freez", qc.sst_freeze_check(v["SST"], 0.0, q["freezing_point"], q["freeze_check_n_sigma"]), "SST freez")
    flag(c, r, "SST", "clim", qc.climatology_check(v["SST"], v["SST_clim"], q["maximum_anomaly"]), "SST clim")
    flag(c, r, "SST", "nonorm", qc.no_normal_check(v["SST_clim"]), "SST nonorm")
    flag(c, r, "SST", "hardlimit", qc.hard_limit(v["SST"], q["hard_limits"]), "SST hardlimit")


def at_flags(c, r, v, p):
    q = p["AT"]
    flag(c, r, "AT", "noval", qc.value_check(v["AT"]), "AT noval")
    flag(c, r, "AT", "clim", qc.climatology_check(v["AT"], v["AT_clim"], q["maximum_anomaly"]), "AT clim")
    flag(c, r, "AT", "nonorm", qc.no_normal_check(v["AT_clim"]), "AT nonorm")
    flag(c, r, "AT", "hardlimit", qc.hard_limit(v["AT"], q["hard_limits"]), "AT hardlimit")


def at2_flags(c, r, v, p):
    q = p["AT"]
    flag(c, r, "AT2", "noval", qc.value_check(v["AT2"]), "AT2 noval")
    flag(c, r, "AT2", "clim", qc.climatology_plus_stdev_check(v["AT2"], v["AT2_clim"], v["AT2_stdev"],
                                                              q["minmax_standard_deviation"],
                                                              q["maximum_standardised_anomaly"]), "AT2 clim")
    flag(c, r, "AT2", "nonorm", qc.no_normal_check(v["AT2_clim"]), "AT2 nonorm")
    flag(c, r, "AT2", "hardlimit", qc.hard_limit(v["AT"], q["hard_limits"]), "AT2 hardlimit")


def dpt_flags(c, r, v, p, hard=True):
    q = p["DPT"]
    flag(c, r, "DPT", "noval", qc.value_check(v["DPT"]), "DPT noval")
    flag(c, r, "DPT", "clim", qc.climatology_plus_stdev_check(v["DPT"], v["DPT_clim"], v["DPT_stdev"],
                                                              q["minmax_standard_deviation"],
                                                              q["maximum_standardised_anomaly"]), "DPT clim")
    flag(c, r, "DPT", "nonorm", qc.no_normal_check(v["DPT_clim"]), "DPT nonorm")
    flag(c, r, "DPT", "ssat", qc.supersat_check(v["DPT"], v["AT2"]), "DPT ssat")
    if hard:
        bad = qc.hard_limit(v["AT"], p["AT"]["hard_limits"]) + qc.hard_limit(v["DPT"], q["hard_limits"]) + \
            qc.hard_limit(v["SHU"], p["SHU"]["hard_limits"]) + qc.hard_limit(v["CRH"], p["RH"]["hard_limits"])
        flag(c, r, "DPT", "hardlimit", 1 if bad > 0 else 0, "DPT hardlimit: any of AT, DPT, SHU, RH out of limits")


def slp_flags(c, r, v, p):
    q = p["SLP"]
    flag(c, r, "SLP", "noval", qc.value_check(v["SLP"]), "SLP noval")
    flag(c, r, "SLP", "clim", qc.climatology_plus_stdev_with_lowbar(v["SLP"], v["SLP_clim"], v["SLP_stdev"],
                                                                    q["maximum_standardised_anomaly"], q["lowbar"]),
         "SLP clim")
    flag(c, r, "SLP", "nonorm", qc.no_normal_check(v["SLP_clim"]), "SLP nonorm")


def wind_flags(c, r, v, p):
    q = p["W"]
    flag(c, r, "W", "noval", qc.value_check(v["W"]), "W noval")
    flag(c, r, "W", "hardlimit", qc.hard_limit(v["W"], q["hard_limits"]), "W hardlimit")
    flag(c, r, "W", "consistency", qc.wind_consistency(v["W"], v["D"], q["variable_limit"]), "W consistency")


def left_out(c, names, p):
    n = ["nothing"] + list(names)
    first = n[c.concretise(c.int("missing", 0, len(n) - 1))]
    if not p.get("two"):
        return (first,)
    return (first, n[c.concretise(c.int("missing2", 0, len(n) - 1))])


TWO = [{}, {"two": 1}]


@harness(quick=[{}], thorough=TWO, nonlinear=True, time=120)
def sst(c, p):
    q = c.shared("limits", lambda: params(c))
    r, v = build(c, left_out(c, ("SST", "SST_clim"), p), ("SST",), ("SST",))
    r.do_base_sst_qc(q["SST"])
    sst_flags(c, r, v, q)


@harness(quick=[{}], thorough=TWO, nonlinear=True, time=120)
def air(c, p):
    q = c.shared("limits", lambda: params(c))
    r, v = build(c, left_out(c, ("AT", "AT2", "AT_clim", "AT2_clim", "AT2_stdev"), p), ("AT", "AT2"), ("AT", "AT2"))
    r.do_base_mat_qc(q["AT"])
    r.do_kate_mat_qc(q["AT"])
    at_flags(c, r, v, q)
    at2_flags(c, r, v, q)


@harness(quick=[{}], thorough=TWO, nonlinear=True, time=120)
def dew_point(c, p):
    q = c.shared("limits", lambda: params(c))
    r, v = build(c, left_out(c, ("AT2", "DPT", "DPT_clim", "DPT_stdev"), p), ("AT2", "DPT"), ("DPT",))
    r.do_base_dpt_qc(q["DPT"])
    dpt_flags(c, r, v, q, hard=False)


@harness(quick=[{}], thorough=TWO, nonlinear=True, time=120)
def pressure(c, p):
    q = c.shared("limits", lambda: params(c))
    r, v = build(c, left_out(c, ("SLP", "SLP_clim", "SLP_stdev"), p), ("SLP",), ("SLP",))
    r.do_base_slp_qc(q["SLP"])
    slp_flags(c, r, v, q)


@harness(quick=[{}], thorough=TWO, nonlinear=True, time=120)
def wind(c, p):
    q = c.shared("limits", lambda: params(c))
    r, v = build(c, left_out(c, ("W", "D"), p), ("W", "D"), ())
    r.do_base_wind_qc(q["W"])
    wind_flags(c, r, v, q)


def sun(c):
    def f(year, day, hour, minute, sec, zone, dst, la, lo):
        return 0.0, c.uf("elevation", year, day, hour, minute, la, lo, lo=-90.0, hi=90.0), 0.0, 0.0, 0.0, 0.0
    c.patch(qc, "sunangle", f)


WHEN = ("YR", "MO", "DY", "HR", "LAT", "LON", "PT", "DCK")


def when_flags(c, r, v, q, day=True):
    p0, d0, t0 = qc.position_check(v["LAT"], v["LON"]), qc.date_check(v["YR"], v["MO"], v["DY"]), qc.time_check(v["HR"])
    flag(c, r, "POS", "pos", p0, "POS pos")
    flag(c, r, "POS", "date", d0, "POS date")
    flag(c, r, "POS", "time", t0, "POS time")
    if day:
        if p0 == 0 and d0 == 0 and t0 == 0:
            lon = v["LON"]
            if lon > 180:
                lon = lon - 360.0
            flag(c, r, "POS", "day", qc.day_test(v["YR"], v["MO"], v["DY"], v["HR"], v["LAT"], lon,
                                                 q["base"]["time_since_sun_above_horizon"]), "POS day")
        else:
            flag(c, r, "POS", "day", 1, "a report with a bad place or time counts as day")


@harness(quick=[{}], time=120)
def place_and_time(c, p):
    sun(c)
    q = {"base": {"time_since_sun_above_horizon": c.float("since", 0.0, 12.0)}}
    r, v = build(c, left_out(c, ("HR", "DY"), p), WHEN[:6], ())
    r.do_position_check()
    r.do_date_check()
    r.do_time_check()
    r.do_day_check(q["base"]["time_since_sun_above_horizon"])
    when_flags(c, r, v, q)


@harness(quick=[{}], time=60)
def missing_hour(c, p):
    r, v = build(c, left_out(c, ("HR", "YR", "DCK"), p), WHEN, ())
    r.do_fix_missing_hour()
    h = r.getvar("HR")
    if v["HR"] is None and v["DCK"] == 701 and (v["YR"] is None or v["YR"] < 1860):
        c.require(h == 0, "early deck 701 reports without hour are put at 0 UTC")
    elif v["HR"] is None:
        c.require(h is None, "otherwise a missing hour stays missing")
    else:
        c.require(h == v["HR"], "an hour that is there stays")


ALL = {"base": ("SST", "AT", "AT2", "DPT", "SLP", "W", "D", "SHU", "CRH"), "sst": ("SST",), "slp": ("SLP",), "wind": ("W", "D"),
       "dat": ()}


GONE = [{"run": "base", "gone": (k,)} for k in ("nothing",) + ALL["base"]]
PAIRS = [{"run": "base", "gone": (a, b)} for a in ALL["base"] for b in ALL["base"] if a < b]


@harness(quick=[{"run": k} for k in ALL if k != "base"] + GONE,
         thorough=[{"run": k} for k in ALL if k != "base"] + GONE + PAIRS, nonlinear=True, time=150)
def whole(c, p):
    """the entry points run all their checks, on a report with a good date and place"""
    run = p["run"]
    q = c.shared("limits", lambda: params(c))
    daytime = c.int("daytime", 0, 1)
    c.patch(qc, "day_test", lambda *a, **k: daytime)
    norms = [n for n in ALL[run] if n in ("SST", "AT", "AT2", "DPT", "SLP")]
    gone = p["gone"] if "gone" in p else left_out(c, ALL[run], p) if ALL[run] else ()
    r, v = build(c, gone, ALL[run], norms)
    v["PT"], v["DCK"] = c.choice("source", [(5, 780), (7, 1), (6, 708), (21, 193), (None, 732)])
    r.setvar("PT", v["PT"])
    r.setvar("DCK", v["DCK"])
    for n, x in (("YR", 1950), ("MO", 6), ("DY", 15), ("HR", 12.0), ("LAT", 30.0), ("LON", -40.0)):
        r.setvar(n, x)
    if run == "dat":
        x = c.opt("DAT", lambda n: c.float(n, -100.0, 100.0))
        cl = c.opt("DAT_clim", lambda n: c.float(n, -100.0, 100.0))
        r.setext("DAT", x)
        r.add_climate_variable("DAT", cl)
    getattr(r, {"base": "perform_base_qc", "sst": "perform_base_sst_qc", "slp": "perform_base_slp_qc",
                "wind": "perform_base_wind_qc", "dat": "perform_base_dat_qc"}[run])(q)
    for n in ("pos", "date", "time"):
        flag(c, r, "POS", n, 0, "POS " + n)
    flag(c, r, "POS", "isbuoy", 1 if (v["PT"] == 6 or v["PT"] == 7) else 0, "isbuoy is set")
    c.require(r.get_qc("POS", "isship") != 9 and r.get_qc("POS", "blklst") != 9, "ship and blacklist flags are set")
    if run != "wind":
        c.require(r.get_qc("POS", "day") == daytime, "the day flag is set")
    if run == "base":
        for k, n in (("DPT", "hum_blacklist"), ("AT", "mat_blacklist"), ("W", "wind_blacklist"), ("POS", "is780")):
            c.require(r.get_qc(k, n) != 9, "blacklist flags are set")
        at_flags(c, r, v, q)
        at2_flags(c, r, v, q)
        dpt_flags(c, r, v, q)
    if run in ("base", "sst"):
        sst_flags(c, r, v, q)
    if run in ("base", "slp"):
        slp_flags(c, r, v, q)
    if run in ("base", "wind"):
        wind_flags(c, r, v, q)
    if run == "dat":
        flag(c, r, "DAT", "noval", qc.value_check(x), "DAT noval")
        flag(c, r, "DAT", "clim", qc.climatology_check(x, cl, q["DAT"]["maximum_anomaly"]), "DAT clim")
        flag(c, r, "DAT", "nonorm", qc.no_normal_check(cl), "DAT nonorm")
        flag(c, r, "DAT", "hardlimit", qc.hard_limit(x, q["DAT"]["hard_limits"]), "DAT hardlimit")


SITUATIONS = [{}, {"DCK": 701, "YR": 1859, "HR": None}, {"DCK": 701, "YR": 1860, "HR": None}, {"DCK": 700, "YR": 1859, "HR": None},
              {"DCK": 701, "YR": 1859, "HR": 3.0}, {"LAT": 95.0}, {"MO": 13}, {"HR": 25.0}, {"DY": None},
              {"DCK": 780, "PT": 5}, {"DCK": 708}, {"DCK": 193, "YR": 1885, "LAT": 45.0, "LON": -20.0}, {"PT": 7}, {"PT": 13}]


@harness(quick=[{"run": k} for k in ALL], time=100)
def entry(c, p):
    """the entry points judge place, time and source of any report, and leave no flag of theirs unset"""
    run = p["run"]
    q = c.shared("limits", lambda: params(c))
    daytime = c.int("daytime", 0, 1)
    seen = []

    def day_test(year, month, day, hour, lat, lon, since):
        seen.append((year, month, day, hour, lat, lon, since))
        return daytime
    c.patch(qc, "day_test", day_test)
    v = {"YR": 1950, "MO": 6, "DY": 15, "HR": 12.0, "LAT": 30.0, "LON": -40.0, "PT": 5, "DCK": 732}
    v.update(c.choice("situation", SITUATIONS))
    r = R.report(ID="SHIP     ", UID="ABC123", **v)
    for n in ("SST", "AT", "AT2", "DPT", "SLP", "DAT"):
        r.add_climate_variable(n, None)
    r.setext("DAT", None)
    getattr(r, {"base": "perform_base_qc", "sst": "perform_base_sst_qc", "slp": "perform_base_slp_qc",
                "wind": "perform_base_wind_qc", "dat": "perform_base_dat_qc"}[run])(q)
    if v["DCK"] == 701 and v["YR"] < 1860 and v["HR"] is None:
        v["HR"] = 0
        c.require(r.dt is not None, "the date and time are worked out anew")
    c.require(r.getvar("HR") == v["HR"] or (r.getvar("HR") is None and v["HR"] is None), "the hour as it should be")
    p0, d0, t0 = qc.position_check(v["LAT"], v["LON"]), qc.date_check(v["YR"], v["MO"], v["DY"]), qc.time_check(v["HR"])
    flag(c, r, "POS", "pos", p0, "place judged by itself")
    flag(c, r, "POS", "date", d0, "date judged by itself")
    flag(c, r, "POS", "time", t0, "time judged by itself")
    if run != "wind":
        if p0 or d0 or t0:
            flag(c, r, "POS", "day", 1, "a bad place or time counts as day")
            c.require(seen == [], "no day test without place and time")
        else:
            flag(c, r, "POS", "day", daytime, "day as tested")
            c.require(len(seen) == 1 and seen[0][:6] == (v["YR"], v["MO"], v["DY"], v["HR"], v["LAT"], v["LON"]) and
                      seen[0][6] == q["base"]["time_since_sun_above_horizon"], "tested at its own place and time")
    flag(c, r, "POS", "isbuoy", 1 if v["PT"] in (6, 7) else 0, "buoys are known by their type")
    flag(c, r, "POS", "isdrifter", 1 if v["PT"] == 7 else 0, "drifters are known by their type")
    flag(c, r, "POS", "isship", 1 if v["PT"] in (0, 1, 2, 3, 4, 5, 10, 11, 12, 17) else 0, "ships are known by their type")
    c.require(r.get_qc("POS", "blklst") != 9, "the blacklist flag is set")
    if run in ("base", "sst", "slp"):
        flag(c, r, "POS", "is780", 1 if v["DCK"] == 780 else 0, "deck 780 is known")
    if run in ("base", "dat"):
        bad = (v["DCK"] == 780 and v["PT"] == 5) or v["DCK"] == 193
        flag(c, r, "AT", "mat_blacklist", 1 if bad else 0, "sources without air temperatures are known")
    if run in ("base", "wind"):
        flag(c, r, "W", "wind_blacklist", 1 if v["DCK"] in (708, 780) else 0, "sources without winds are known")
    if run == "base":
        flag(c, r, "DPT", "hum_blacklist", 0 if v["PT"] in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15) else 1, "sources without humidity are known")
    for k, n in {"base": [("SST", "noval"), ("AT", "noval"), ("AT2", "noval"), ("DPT", "noval"), ("SLP", "noval"), ("W", "noval")],
                 "sst": [("SST", "noval")], "slp": [("SLP", "noval")], "wind": [("W", "noval")], "dat": [("DAT", "noval")]}[run]:
        flag(c, r, k, n, 1, "no value")


@harness(quick=[{}], nonlinear=True, time=100)
def simple(c, p):
    """the short list of checks of a report, with limits of its own"""
    sun(c)
    used = WHEN + ("SST", "AT")
    r, v = build(c, left_out(c, ("SST", "AT", "DY"), p), used, ("SST", "AT"))
    c.assume((v["HR"] >= 0) & (v["HR"] < 24) & (v["LON"] >= -180) & (v["LON"] <= 360))
    c.assume((v["YR"] >= 1800) & (v["YR"] <= 1801) & (v["DCK"] != 193))
    qc.base_qc_report(r)
    d0 = qc.date_check(v["YR"], v["MO"], v["DY"])
    p0 = qc.position_check(v["LAT"], v["LON"])
    flag(c, r, "POS", "pos", p0, "POS pos")
    flag(c, r, "POS", "date", d0, "POS date")
    if p0 == 0 and d0 == 0:
        lon = v["LON"]
        if lon > 180:
            lon = lon - 360.0
        flag(c, r, "POS", "day", qc.day_test(v["YR"], v["MO"], v["DY"], v["HR"], v["LAT"], lon), "POS day")
    else:
        flag(c, r, "POS", "day", 1, "a report with a bad place or date counts as day")
    flag(c, r, "POS", "isbuoy", 1 if (v["PT"] == 6 or v["PT"] == 7) else 0, "isbuoy")
    flag(c, r, "POS", "is780", 1 if v["DCK"] == 780 else 0, "is780")
    flag(c, r, "POS", "mat_blacklist", 1 if v["DCK"] == 780 and v["PT"] == 5 else 0, "mat_blacklist")
    for n, lim in (("SST", 8.0), ("AT", 10.0)):
        cl = v[n + "_clim"] if n + "_clim" in v else r.getnorm(n)
        flag(c, r, n, "noval", qc.value_check(v[n]), n + " noval")
        flag(c, r, n, "clim", qc.climatology_check(v[n], cl, lim), n + " clim")
        flag(c, r, n, "nonorm", qc.no_normal_check(cl), n + " nonorm")
    flag(c, r, "SST", "freez", qc.sst_freeze_check(v["SST"], 0.0), "SST freez")


for _n in ("sst", "air", "dew_point", "pressure", "wind"):
    again(_n, quick=[{}], nonlinear=True, time=120)
