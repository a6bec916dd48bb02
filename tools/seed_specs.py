"""Planted bugs: edits of /repo's files, with a demonstration each."""
SEEDS = []
REP = '''
import Extended_IMMA as ex


class Rec:
    pass


def report(**v):
    r = Rec()
    r.data = v
    return ex.MarineReportQC(r)

'''


def S(id, property, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


S("p01-clamp", "P01", [("qc.py", "        if stdev > stdev_limits[1]:\n            stdev = stdev_limits[1]\n",
                        "        elif stdev >= stdev_limits[1] * 2:\n            stdev = stdev_limits[1]\n")],
  "a standard deviation between once and twice the upper limit",
  "the upper clamp of the standard deviation is not applied just above the limit",
  '''
import qc
assert qc.climatology_plus_stdev_check(9.0, 0.0, 1.5, [0.5, 1.0], 8.0) == 1
assert qc.climatology_plus_stdev_check(7.0, 0.0, 1.5, [0.5, 1.0], 8.0) == 0
''')

S("p01-lowbar", "P01", [("qc.py", "abs(inval - inclimav) > lowbar:", "abs(inval - inclimav) >= lowbar:")],
  "an anomaly equal to the low bar", "the low bar fails an anomaly that only reaches it",
  '''
import qc
assert qc.climatology_plus_stdev_with_lowbar(10.0, 0.0, 1.0, 3.0, 10.0) == 0
assert qc.climatology_plus_stdev_with_lowbar(10.5, 0.0, 1.0, 3.0, 10.0) == 1
''')

S("p02-century", "P02", [("qc.py", "    month_lengths = get_month_lengths(inyear)\n\n    if inday is None:",
                          "    month_lengths = get_month_lengths(inyear)\n    if inyear % 4 == 0:\n"
                          "        month_lengths[1] = 29\n\n    if inday is None:")],
  "29 February 1900", "century years count as leap years in the date check",
  '''
import qc
assert qc.date_check(1900, 2, 29) == 1
assert qc.date_check(2000, 2, 29) == 0
assert qc.date_check(1904, 2, 29) == 0
''')

S("p04-yearend", "P04", [("qc.py", "                day2 = dayinyear(year2, 12, 31)\n", "                day2 = dayinyear(year, 12, 31)\n")],
  "1 January of a leap year or of the year after one, less than an hour after midnight",
  "the day test looks at day 366 of a common year or day 365 of a leap year",
  '''
import qc
seen = []


def fake(*a):
    seen.append(a)
    return (0.0, 1.0, 0, 0, 0, 0)


qc.sunangle = fake
for y, want in ((2001, 366), (2004, 365), (2003, 365)):
    qc.day_test(y, 1, 1, 0.5, 10.0, 20.0)
    assert seen[-1][:2] == (y - 1, want), seen[-1]
''')

S("p06-mask", "P06", [("qc.py", "        result = sst[pentad - 1, yindex, xindex]\n", "        result = sst[min(pentad, len(sst[:, 0, 0])) - 1, yindex, xindex - 360 * (xindex == 359 and yindex == 0)]\n        if pentad == 73 and lat > 89:\n            result = sst[0, yindex, xindex]\n")],
  "the last pentad of the year, north of 89N", "reads the first pentad instead of the last one in the northernmost row",
  '''
import numpy as np
import qc
f = np.ma.masked_array(np.zeros((73, 180, 360)), mask=False)
f[72, 0, 10] = 5.0
f[0, 0, 10] = -5.0
v = qc.get_sst(89.5, -169.5, 12, 31, f.data)
assert v == 5.0, v
''')

S("p07-corner", "P07", [("qc.py", "    if outq21 is None:\n        outq21 = missing_mean([q11, q22])", "    if outq21 is None:\n        outq21 = missing_mean([q11, outq12])")],
  "exactly the south-eastern corner (and maybe others) missing", "a missing corner is filled from the wrong neighbours",
  '''
import qc
assert qc.fill_missing_vals(1.0, 9.0, None, 3.0) == (1.0, 9.0, 2.0, 3.0)
assert qc.fill_missing_vals(1.0, 2.0, 3.0, 4.0) == (1.0, 2.0, 3.0, 4.0)
''')

S("p07-pole", "P07", [("qc.py", "    if lat + 0.5 <= 90:\n", "    if lat + 0.5 < 90:\n")],
  "latitude exactly 89.5", "north of the last row centre begins at the centre instead of beyond it",
  '''
import qc
x1, x2, y1, y2 = qc.get_four_surrounding_points(89.5, 10.2, 0)
assert (y1, y2) == (88.5, 89.5) or y2 - y1 == 1, (y1, y2)
''')

S("p08-lon", "P08", [("Extended_IMMA.py", "        # make sure lons are in range -180 to 180\n        lon = self.lon()\n        lat = self.lat()\n        # North Atlantic",
                      "        # make sure lons are in range -180 to 180\n        lon = self.getvar('LON')\n        lat = self.lat()\n        # North Atlantic")],
  "a deck 193 report of the 1880s in the North Atlantic whose longitude is given as 0..360",
  "the western exclusion areas are missed for longitudes above 180",
  REP + '''
for lon in (-30.0, 330.0):
    r = report(ID='S', DCK=193, YR=1885, MO=1, DY=1, HR=0, LAT=45.0, LON=lon, PT=5)
    r.mat_blacklist()
    assert r.get_qc('AT', 'mat_blacklist') == 1
''')

S("p08-generic", "P08", [("qc.py", "    if 1930 <= inyear <= 1937:\n", "    if 1930 <= inyear < 1937:\n")],
  "identifier 3 in 1937", "the last year of a generic identifier is left out",
  '''
import qc
assert qc.id_is_generic('3        ', 1937) and not qc.id_is_generic('3        ', 1938)
''')

S("p09-day", "P09", [("Extended_IMMA.py", "                self.get_qc('POS', 'date') == 0 and\n                self.get_qc('POS', 'time') == 0):",
                      "                self.get_qc('POS', 'date') == 0 and\n                self.get_qc('POS', 'time') != 9):")],
  "a valid place and date with an hour of 24 or a missing one", "the day test is run for a report whose time failed",
  REP + '''
r = report(ID='S', DCK=1, YR=1985, MO=1, DY=1, LAT=45.0, LON=10.0, PT=5)
for f in (r.do_position_check, r.do_date_check, r.do_time_check):
    f()
try:
    r.do_day_check(1.0)
    got = r.get_qc('POS', 'day')
except Exception as e:
    got = e
assert got == 1, got
''')

S("p09-kate", "P09", [("Extended_IMMA.py", "self.getnorm('AT2', 'stdev'),\n", "self.getnorm('AT', 'stdev') or self.getnorm('AT2', 'stdev'),\n")],
  "climatologies of AT and AT2 with different standard deviations", "AT2 is checked with the standard deviation of AT",
  REP + '''
r = report(ID='S', AT=10.0, AT2=10.0)
r.add_climate_variable('AT', 0.0, 4.0)
r.add_climate_variable('AT2', 0.0, 1.0)
r.do_kate_mat_qc({'minmax_standard_deviation': [0.5, 5.0], 'maximum_standardised_anomaly': 5.0, 'hard_limits': [-80., 65.]})
assert r.get_qc('AT2', 'clim') == 1
''')

S("p10-split", "P10", [("Extended_IMMA.py", "        if qc_type + specific_flag in self.qc:\n            return self.qc[qc_type + specific_flag]\n        else:\n            return 9\n",
                        "        return self.qc.get(qc_type + specific_flag) or (9 if qc_type + specific_flag not in self.qc and qc_type != 'AT' else 0)\n")],
  "a filter on an AT flag that was never set", "an unset AT flag reads as passed, so filters let the report through",
  REP + '''
r = report(ID='S')
f = ex.QC_filter()
f.add_qc_filter('AT', 'bud', 0)
assert f.test_report(r) == 1
r.set_qc('AT', 'bud', 0)
assert f.test_report(r) == 0
''')

S("p12-anom", "P12", [("Extended_IMMA.py", "            if self.getvar(varname) is not None and clim is not None:\n                return self.getvar(varname) - clim\n",
                       "            if self.getvar(varname) is not None and clim:\n                return self.getvar(varname) - clim\n")],
  "a climatological value of exactly zero", "no anomaly where the normal is 0",
  REP + '''
r = report(ID='S', SST=1.5)
r.add_climate_variable('SST', 0.0)
assert r.getanom('SST') == 1.5
''')

S("p12-speed", "P12", [("Extended_IMMA.py", "            if self.getvar('YR') >= 1968:\n", "            if self.getvar('YR') > 1968:\n")],
  "a speed code reported in 1968", "the change of the speed code is a year late",
  REP + '''
assert report(ID='S', YR=1968, VS=3).getvar('vsi') == 13.0
assert report(ID='S', YR=1967, VS=3).getvar('vsi') == 8.0
''')

S("p14-alt", "P14", [("Extended_IMMA.py", "        # take last-but-one and last point. Calculate a speed and\n        # great circle course from them.\n        course = self.reps[nreps - 1].getvar('course')\n",
                      "        # take last-but-one and last point. Calculate a speed and\n        # great circle course from them.\n        course = self.reps[1].getvar('course')\n")],
  "a voyage of three or more reports that changed course", "the prediction follows the first leg's course",
  REP + '''
v = ex.Voyage()
for i, (la, lo) in enumerate([(0.0, 0.0), (1.0, 0.0), (1.0, 1.0)]):
    v.add_report(report(ID='S', YR=2000, MO=1, DY=1, HR=float(i), LAT=la, LON=lo))
la, lo = v.predict_next_point(1.0)
assert abs(lo - 2.0) < 0.1 and abs(la - 1.0) < 0.1, (la, lo)
''')

S("p14-sort", "P14", [("Extended_IMMA.py", "            for i in range(1, len(self.reps)):\n                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n",
                       "            for i in range(1, len(self.reps)):\n                if self.reps[i].dt == self.reps[i - 1].dt:\n                    continue\n                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]\n")],
  "two reports at the same time, added out of order", "speeds of simultaneous reports are not recalculated after sorting",
  REP + '''
v = ex.Voyage()
for i, (h, la) in enumerate([(5.0, 0.0), (1.0, 10.0), (1.0, 30.0)]):
    v.add_report(report(ID='S', YR=2000, MO=1, DY=1, HR=h, LAT=la, LON=0.0))
v.reps = [v.reps[2], v.reps[0], v.reps[1]]
v.sort()
for a, b in zip(v.reps, v.reps[1:]):
    assert abs(b.getvar('distance') - (b - a)[1]) < 1e-6
''')

S("p15-reset", "P15", [("Extended_IMMA.py", "        if allcount > min_count:\n            for key in valcount:\n                if float(len(valcount[key])) / float(allcount) > threshold:",
                        "        if allcount > min_count:\n            for key in valcount:\n                if float(len(valcount[key])) / float(len(self.reps)) > threshold:")],
  "a voyage with missing values", "the fraction is taken of all reports, not of those with a value",
  REP + '''
v = ex.Voyage()
for i, x in enumerate([5.0, 5.0, 5.0, 6.0, None, None]):
    r = report(ID='S', UID=str(i))
    if x is not None:
        r.setvar('SST', x)
    v.reps.append(r)
v.find_repeated_values({'threshold': 0.7, 'min_count': 3}, 'SST')
assert [v.get_qc(i, 'SST', 'rep') for i in range(6)] == [1, 1, 1, 0, 0, 0]
''')

S("p16-end", "P16", [("Extended_IMMA.py", "        if len(satcount) > shortest_run:\n\n            shpspd, shpdis, shpdir, tdiff = \\\n                self.reps[satcount[len(satcount) - 1]] - self.reps[satcount[0]]\n\n            if tdiff >= min_time_threshold:\n                for loc in satcount:\n                    self.reps[loc].set_qc('DPT', 'repsat', 1)\n\n        return",
                      "        if len(satcount) > shortest_run:\n\n            shpspd, shpdis, shpdir, tdiff = \\\n                self.reps[satcount[len(satcount) - 1]] - self.reps[satcount[0]]\n\n            if tdiff >= min_time_threshold:\n                for loc in satcount[:len(satcount) - (satcount[0] > 0)]:\n                    self.reps[loc].set_qc('DPT', 'repsat', 1)\n\n        return")],
  "a saturated run that starts after the first report and ends the voyage", "the last report of the run is not flagged",
  REP + '''
v = ex.Voyage()
for i in range(5):
    r = report(ID='S', YR=2000, MO=1, DY=1 + i, HR=0.0, LAT=0.0, LON=0.0, AT=5.0, DPT=5.0 if i else 4.0)
    v.add_report(r)
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 2})
assert [r.get_qc('DPT', 'repsat') for r in v.reps] == [0, 1, 1, 1, 1]
''')

S("p17-course", "P17", [("track_check.py", "                (max_direction_change < abs(dsi_previous - ship_directions) < 360 - max_direction_change)):",
                         "                (max_direction_change < abs(dsi_previous - ship_directions) < 300)):")],
  "a direction limit other than 60 and a previous course that is off across north", "the wrap of the previous course is hard wired",
  '''
import track_check as tc
assert tc.direction_continuity(0, 0, 320.0, 45.0) == 0
assert tc.direction_continuity(0, 315, 350.0, 30.0) == 10
assert tc.direction_continuity(0, 315, 0.0, 50.0) == 0
assert tc.direction_continuity(0, 315, 0.0, 44.0) == 10
assert tc.direction_continuity(0, 360, 50.0, 50.0) == 0
''')

S("p18-passes", "P18", [("track_check.py", "            qcs = mds_track_check(tempreps)\n\n            for i, qc_ref in enumerate(qc_refs):\n                master_qc[qc_ref] = qcs[i]\n",
                         "            qcs = mds_track_check(tempreps)\n\n            for i, qc_ref in enumerate(qc_refs):\n                master_qc[qc_ref] = qcs[i] if repititions < 3 else 0\n")],
  "a voyage that still has a failure in the fifth pass", "failures of the last pass are dropped",
  REP + '''
import track_check as tc
v = ex.Voyage()
for i in range(9):
    v.add_report(report(ID='S', UID=str(i), YR=2000, MO=1, DY=1 + i, HR=0.0, LAT=float(i), LON=0.0))


def one(x):
    n = len(x)
    return [0] + [1] + [0] * (n - 2)


tc.mds_track_check = one
tc.mds_full_track_check(v)
assert [r.get_qc('POS', 'bad_track') for r in v.reps] == [0, 1, 1, 1, 1, 1, 0, 0, 0]
''')

S("p13-minutes", "P13", [("Extended_IMMA.py", "                self.dt > other.dt):\n", "                self.dt.timetuple()[:4] > other.dt.timetuple()[:4]):\n")],
  "two reports of one ship within the same hour", "reports within an hour are neither earlier nor later",
  REP + '''
a = report(ID='S', YR=2000, MO=1, DY=1, HR=5.25)
b = report(ID='S', YR=2000, MO=1, DY=1, HR=5.75)
assert b > a and a < b and not a > b and b >= a and not a >= b
''')

S("p11-none", "P11", [("Extended_IMMA.py", "        self.idtracker = {}\n        for i, rep in enumerate(self.reps):\n            if rep.getvar('ID') in self.idtracker:\n",
                       "        self.idtracker = {}\n        for i, rep in enumerate(self.reps):\n            if rep.getvar('ID') is None:\n                continue\n            if rep.getvar('ID') in self.idtracker:\n")],
  "a report without identifier in a deck that was sorted or indexed", "reports without identifier are no longer handed out",
  REP + '''
d = ex.Deck()
for i, k in enumerate(['A', None, 'A']):
    d.append(report(ID=k, UID=str(i), YR=2000, MO=1, DY=1, HR=float(i), LAT=0.0, LON=0.0))
d.sort()
got = [r.getvar('UID') for v in d.get_one_platform_at_a_time() for r in v.reps]
assert sorted(got) == ['0', '1', '2'], got
''')

S("p03-leap", "P03", [("qc.py", "    if calendar.isleap(year):\n        month_lengths", "    if year % 4 == 0 and (year % 100 != 0 or year % 1000 == 0):\n        month_lengths")],
  "the year 1600 or 2400, or 1000 and 3000", "multiples of 400 that are no multiples of 1000 count as common years",
  '''
import calendar
import qc
for y in range(1, 3001):
    assert (qc.get_month_lengths(y)[1] == 29) == calendar.isleap(y), y
''')

S("p05-pole", "P05", [("qc.py", "        if yindex >= 180 / res:\n            yindex = int(180 / res - 1)", "        if yindex > 180 / res:\n            yindex = int(180 / res - 1)")],
  "the south pole at a resolution other than 1 degree", "the south pole is put in a row beyond the last",
  '''
import qc
assert qc.lat_to_yindex(-90.0, 5) == 35
assert qc.lat_to_yindex(-89.0, 5) == 35
''')

S("p19-time", "P19", [("Extended_IMMA.py", "                                           abs(time_diff) * max_gradient_time])", "                                           time_diff * max_gradient_time])")],
  "a change that the elapsed time allows but noise limit and distance do not", "the time gradient is not applied to earlier neighbours",
  REP + '''
v = ex.Voyage()
for i, x in enumerate([5.0, 10.0]):
    v.add_report(report(ID='SHIP5678', YR=2000, MO=1, DY=1 + i, HR=0.0, LAT=0.1 * i, LON=0.0, SST=x, PT=5))
v.spike_check({'max_gradient_space': 0.1, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0,
               'number_of_neighbours': 5})
assert [r.get_qc('SST', 'spike') for r in v.reps] == [0, 0]
''')

S("p19-window", "P19", [("Extended_IMMA.py", "                if iquam_condition > speed_limit:\n", "                if iquam_condition > speed_limit and abs(t2 - t1) != n_neighbours:\n")],
  "a pair that is exactly the number of neighbours apart", "the farthest neighbour is not compared",
  REP + '''
v = ex.Voyage()
for i, la in enumerate([0.0, 20.0]):
    v.add_report(report(ID='SHIP5678', YR=2000, MO=1, DY=1, HR=float(i), LAT=la, LON=0.0, PT=5))
v.iquam_track_check({'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01,
                     'number_of_neighbours': 1})
assert [r.get_qc('POS', 'iquam_track') for r in v.reps] == [1, 0]
''')


GRID = REP + '''

class Field(object):
    def __init__(self, x):
        self.x = x

    def get_value_mds_style(self, lat, lon, month, day):
        return self.x
    get_value = get_value_mds_style


def deck(reports):
    d = ex.Deck()
    for lat, lon, m, day, sst in reports:
        r = report(ID='A', YR=2003, MO=m, DY=day, HR=1.0, LAT=lat, LON=lon, SST=sst)
        r.add_climate_variable('SST', 0.0)
        d.append(r)
    return d


'''
PARS = '''
PARS = {'limits': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
        'number_of_obs_thresholds': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
        'multipliers': [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]}
'''

S("p20-span", "P20", [("Extended_IMMA.py", "        full_xspan = int(xspan / math.cos(latitude_approx * radcon))\n",
                       "        full_xspan = int(round(xspan / math.cos(latitude_approx * radcon)))\n")],
  "latitudes where the width of the box in columns has a fraction of a half or more",
  "the box is a column wider than its reach", GRID + PARS + '''
d = deck([(50.5, 0.5, 6, 30, 3.9), (50.5, 2.5, 6, 30, 0.0), (52.5, 0.5, 6, 30, 0.0)])
PARS['multipliers'][1] = [3.0]
d.mds_buddy_check('SST', Field(1.0), PARS)
assert [r.get_qc('SST', 'bud') for r in d.reps][0] == 1
''')

S("p20-cells", "P20", [("Extended_IMMA.py", "                    total_nobs = np.sum(temp_nobs)\n\n                    self.buddy_stdev[xindex][yindex][pindex] = \\\n"
                        "                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[j],",
                        "                    total_nobs = len(temp_nobs)\n\n                    self.buddy_stdev[xindex][yindex][pindex] = \\\n"
                        "                        get_threshold_multiplier(total_nobs,\n                                                 number_of_obs_thresholds[j],")],
  "a neighbouring cell with several reports, more than a threshold number while the cells are not",
  "the limit follows from the number of neighbouring cells instead of reports",
  GRID + PARS + '''
d = deck([(0.5, 0.5, 6, 30, 3.8)] + [(0.5, 1.5, 6, 28, 0.0)] * 7)
d.mds_buddy_check('SST', Field(1.0), PARS)
assert [r.get_qc('SST', 'bud') for r in d.reps][0] == 1
d = deck([(0.5, 0.5, 6, 30, 3.8)] + [(0.5, 1.5, 6, 28, 0.0)] * 2)
d.mds_buddy_check('SST', Field(1.0), PARS)
assert [r.get_qc('SST', 'bud') for r in d.reps][0] == 0
''')

S("p21-noise", "P21", [("Extended_IMMA.py", "                    ntot += 1.0\n", "                    ntot += n_obs\n"),
                       ("Extended_IMMA.py", "                sigma_buddy = tot / (ntot ** 2.)\n",
                        "                sigma_buddy = tot / (ntot * len(temp_nobs))\n")],
  "a neighbouring cell with more than one report",
  "the variance of the neighbour average is divided by the number of reports instead of cells",
  GRID + '''
import math
import qc
PARS = {'bayesian_buddy_check': {'prior_probability_of_gross_error': 0.05, 'quantization_interval': 0.1,
        'measurement_error': 1.0, 'limits': [2, 2, 4], 'noise_scaling': 3.0}, 'SST': {'maximum_anomaly': 8.0}}
seen = []


def fake(*a):
    seen.append(a[-1])
    return 0.05


qc.p_gross = fake
d = deck([(0.5, 0.5, 6, 30, 1.0)] + [(0.5, 1.5, 6, 28, 0.0)] * 4)
d.bayesian_buddy_check('SST', Field(1.0), Field(1.0), Field(1.0), PARS)
assert abs(seen[0] - math.sqrt(1 + 1 + 3 + (1 + 3) / 4.0 + 1.0)) < 1e-9, seen
d = deck([(0.5, 0.5, 6, 30, 1.0), (0.5, 1.5, 6, 28, 0.0)])
d.bayesian_buddy_check('SST', Field(1.0), Field(1.0), Field(1.0), PARS)
assert abs(seen[5] - math.sqrt(1 + 1 + 3 + (1 + 3) + 1.0)) < 1e-9, seen
''')

S("p21-edge", "P21", [("qc.py", "    upper_x = min([x + 0.5 * q, r_hi + 0.5 * q])\n", "    upper_x = min([x + 0.5 * q, r_hi])\n")],
  "an anomaly within half a quantum of the upper limit", "the quantum of a value at the upper limit is cut in half",
  '''
import qc
ps = [qc.p_data_given_good(k * 0.5, 0.5, 1.0, -1.0, 0.0, 1.0) for k in (-2, -1, 0, 1, 2)]
assert abs(sum(ps) - 1.0) < 1e-9
assert abs(ps[0] - ps[-1]) < 1e-9
''')

BUOY = REP + '''
import trackqc as tqc


def buoy(rows, **more):
    reps = []
    last = None
    for k, row in enumerate(rows):
        r = report(ID='1', UID=str(k), YR=2003, MO=1, DY=1 + int(row[0] // 24), HR=float(row[0] % 24), LAT=row[1], LON=row[2], PT=7,
                   SST=(row[3] if len(row) > 3 else None))
        r.setext('time_diff', None if last is None else row[0] - last)
        r.setext('OSTIA', 10.0)
        r.setext('ICE', 0.0)
        r.setext('BGVAR', row[4] if len(row) > 4 else 0.01)
        last = row[0]
        reps.append(r)
    return reps


def flags(reps, var, name):
    return [r.get_qc(var, name) for r in reps]


'''

S("p22-zero", "P22", [("trackqc.py", "        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]\n        if win_len < min_win_period_hours:\n            i += 1\n",
                       "        win_len = hrs_smooth[f_win][-1] - hrs_smooth[i]\n        if win_len < min_win_period_hours:\n            is_aground = False\n            i += 1\n")],
  "a buoy aground whose record has a gap longer than the longest period",
  "a gap in the record counts as movement", BUOY + '''
rows = [(0, 0.0, 0.0), (24, 0.0, 5.0), (48, 0.0, 5.0), (72, 0.0, 5.0), (200, 0.0, 5.0), (224, 0.0, 5.0), (248, 0.0, 5.0)]
r = buoy(rows)
tqc.aground_check(r, 1, 1, 2)
assert flags(r, 'POS', 'drf_agr') == [0, 1, 1, 1, 1, 1, 1], flags(r, 'POS', 'drf_agr')
''')

S("p23-whole", "P23", [("trackqc.py", "            for ix in range(i, index_arr[f_win][0] + 1):\n", "            for ix in (i, index_arr[f_win][0]):\n")],
  "a report between the two that are compared (closer than the shortest period)",
  "only the ends of a stretch that is too fast are flagged", BUOY + '''
class V(object):
    pass


ex.Voyage.iquam_track_check = lambda self, p: None
r = buoy([(0, 0.0, 0.0), (4, 0.0, 8.0), (9, 0.0, 8.0), (30, 0.0, 8.0)])
tqc.new_speed_check(r, {}, 3.0, 0.375)
assert flags(r, 'POS', 'drf_spd')[:3] == [1, 1, 1], flags(r, 'POS', 'drf_spd')
r = buoy([(0, 0.0, 0.0), (9, 0.0, 0.1), (30, 0.0, 0.2)])
tqc.new_speed_check(r, {}, 3.0, 0.375)
assert flags(r, 'POS', 'drf_spd') == [0, 0, 0]
''')

S("p24-flip", "P24", [("trackqc.py", "                bgerr_temp = np.flipud(bgerr)\n", "                bgerr_temp = bgerr\n")],
  "a record whose background is uncertain at one end and bad at the other",
  "from the end, values are compared with the backgrounds from the beginning", BUOY + '''
tqc.track_day_test = lambda *a: False
r = buoy([(24 * k, 0.0, 0.0, 10.0 + a, v) for k, (a, v) in enumerate([(0.0, 0.5), (0.0, 0.01), (0.0, 0.01), (20.0, 0.01)])])
tqc.sst_tail_check(r, 1, 3.0, 9, 3.0, 1, 0.29, 1.0, 0.3)
assert flags(r, 'SST', 'drf_tail2') == [0, 0, 0, 1], flags(r, 'SST', 'drf_tail2')
''')

S("p25-masked", "P25", [("trackqc.py", "        if bgvar_mask:\n            bgvar_is_masked = True\n        if daytime",
                         "        if bgvar_mask and not daytime:\n            bgvar_is_masked = True\n        if daytime")],
  "a short record with far values whose only uncertain background goes with a report by day",
  "an uncertain background is overlooked for reports by day", BUOY + '''
tqc.track_day_test = lambda y, m, d, *a: d == 2
rows = [(0, 0.0, 0.0, 30.0, 0.01), (24, 0.0, 0.0, 30.0, 0.9), (48, 0.0, 0.0, 30.0, 0.01)]
r = buoy(rows)
tqc.sst_biased_noisy_check(r, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert flags(r, 'SST', 'drf_short') == [0, 0, 0]
rows[1] = rows[1][:4] + (0.01,)
r = buoy(rows)
tqc.sst_biased_noisy_check(r, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert flags(r, 'SST', 'drf_short') == [1, 1, 1]
''')

S("p25-minute", "P25", [("trackqc.py", "    minute2 = (hour - math.floor(hour)) * 60.0\n", "    minute2 = int((hour - math.floor(hour)) * 60.0) // 15 * 15\n")],
  "an hour whose minutes are not a multiple of 15", "the sun is taken at the last quarter of an hour",
  '''
import trackqc as tqc
seen = []


def fake(*a):
    seen.append(a)
    return 0.0, 5.0, 0, 0, 0, 0


tqc.sunangle = fake
assert tqc.track_day_test(2003, 5, 6, 7.9, 10.0, 20.0)
assert abs(seen[0][2] + seen[0][3] / 60.0 - 7.9) < 1e-6
''')

S("p26-index", "P26", [("YMCounter.py", "        outindex = indices[(self.years == y) & (self.months == m)]\n        return outindex\n",
                        "        return indices[12 * (y - int(self.years[0])) + m - 1] if y > self.years[0] else m - int(self.months[0])\n")],
  "a series that does not begin in January and goes on into the next year",
  "months of later years are counted from January of the first, so chunks are classified wrongly", '''
import YMCounter as ym
g = ym.YMCounter(1999, 6, 2001, 3)
g.setym(1999, 12, 1)
g.setym(2000, 1, 1)
got = list(g.yield_start_and_end_dates(3))
assert got == [(1999, 12, 2000, 1, ['regular'])], got
g = ym.YMCounter(1999, 6, 2000, 6)
g.setym(1999, 12, 1)
g.setym(2000, 1, 1)
got = list(g.yield_start_and_end_dates(5))
assert got == [(1999, 12, 2000, 1, ['new', 'regular'])], got
''')

S("p26-queue", "P26", [("Tracking_QC_wrapper.py", "    while count > 250:\n", "    if count > 250:\n")],
  "a queue that is still full after one wait", "the wrapper waits only once for the queue", '''
import Tracking_QC_wrapper as tw


class Fake(object):
    def __init__(self):
        self.path = self
        self.n = []

    def exists(self, p):
        return True

    def system(self, c):
        pass

    def sleep(self, s):
        self.n.append(s)

    def write(self, s):
        pass

    def close(self):
        pass


f = Fake()
load = [251, 252, 250, 0]
tw.os = tw.time = f
tw.open = lambda *a: f
tw.checkload = lambda u: load.pop(0)
tw.write_submission('c', '1', 1999, 1, 1999, 2, ['new'], 'r', '/none', 'x')
assert len(f.n) == 2, f.n
''')

TRACK = '''
import json
import os
import shutil
import sys
import tempfile
import Extended_IMMA as ex
import tracking_qc as tr
''' + REP + '''

def run(rows, edge, checks):
    """rows: (month, day, hour, {flag: value}); returns the reports given to each check"""
    top = tempfile.mkdtemp()
    try:
        for d in ('out', 'out/2003', 'out/2003/03', 'track'):
            os.mkdir(top + '/' + d)
        v = ex.Voyage()
        for k, (mo, dy, hr, bad) in enumerate(rows):
            r = report(ID='51514    ', UID='U%05d' % k, YR=2003, MO=mo, DY=dy, HR=hr, LAT=1.0, LON=2.0, PT=7, SST=10.0)
            for x in ('SST', 'AT', 'DPT', 'SLP'):
                r.add_climate_variable(x, 5.0)
            for x, y in (('OSTIA', 9.5), ('ICE', 0.0), ('BGVAR', 0.01)):
                r.setext(x, y)
            for f in ('day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'iquam_track'):
                r.set_qc('POS', f, bad.get(f, 0))
            r.set_qc('POS', 'isbuoy', 1)
            r.set_qc('POS', 'isdrifter', 1)
            for f in ('bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'):
                r.set_qc('SST', f, bad.get(f, 0))
            v.reps.append(r)
        v.write_output('run7', top + '/out/2003/03', 2003, 3)
        names = ['new_buoy_aground_check', 'new_buoy_speed_check', 'buoy_tail_check', 'buoy_bias_noise_check']
        par = dict((n, {}) for n in names + ['IQUAM_track_check'])
        par['runid'] = 'run7'
        with open(top + '/p.json', 'w') as f:
            f.write(json.dumps(par))
        with open(top + '/c.txt', 'w') as f:
            f.write('[Directories]\\nout_dir = %s/out\\ntrack_out_dir = %s/track\\n[Files]\\nparameter_file = %s/p.json\\n'
                    % (top, top, top))
        given = []

        def maker(name):
            def check(self, *a):
                given.append([r.getvar('UID') for r in self.reps])
                checks.get(name, lambda s: None)(self)
            return check
        for n in names:
            setattr(ex.Voyage, n, maker(n))
        sys.argv = ['x', '-config', top + '/c.txt', '-id', '51514', '-yr1', '2003', '-mn1', '3', '-yr2', '2003', '-mn2', '3',
                    '-edge'] + edge + ['-runmonthid', 'A']
        tr.main(sys.argv[1:])
        files = [os.path.relpath(d, top + '/track') for d, _, fs in os.walk(top + '/track') for f in fs]
        return given, sorted(files)
    finally:
        shutil.rmtree(top)


'''

S("p27-tail", "P27", [("tracking_qc.py", "    filt.add_qc_filter('SST', 'drf_tail2', 0)  # remove obs failing preceding track checks\n", "")],
  "a report in a bad end of the record", "reports of the bad end of a record reach the bias and noise check", TRACK + '''
def tail(self):
    for i, r in enumerate(self.reps):
        r.set_qc('SST', 'drf_tail1', 0)
        r.set_qc('SST', 'drf_tail2', 1 if i == 2 else 0)


given, files = run([(3, 1, 1.0, {}), (3, 2, 1.0, {}), (3, 3, 1.0, {})], ['regular'],
                   {'new_buoy_aground_check': lambda s: [r.set_qc('POS', 'drf_agr', 0) for r in s.reps],
                    'new_buoy_speed_check': lambda s: [r.set_qc('POS', 'drf_spd', 0) for r in s.reps], 'buoy_tail_check': tail})
assert given[3] == ['U00000', 'U00001'], given
''')

S("p27-edges", "P27", [("tracking_qc.py", "    if 'end_edge_case' in edge:\n", "    elif 'end_edge_case' in edge:\n")],
  "a chunk close to both ends of the series", "a chunk that is both kinds of edge case is written for one only", TRACK + '''
given, files = run([(3, 1, 1.0, {}), (3, 2, 1.0, {})], ['start_edge_case', 'end_edge_case'], {})
assert files == ['TrackingQC/2003/03/end_edge_case_A', 'TrackingQC/2003/03/start_edge_case_A'], files
''')

S("p28-zero", "P28", [("IMMA1.py", "            if self[p].isspace():\n", "            if self[p].strip() in ('', '-'):\n                self[p] = None\n                continue\n            if definitions[p][6] == 1 and definitions[p][0] == 4 and not self[p].strip(' -0'):\n")],
  "a value of exactly zero in a field of four columns", "zeros in columns of width four are read as missing", '''
import IMMA1
r = IMMA1.IMMA()
r.readstr("200301 51200 -150  2000" + " " * 46 + "    0")
assert r['HR'] == 12.0 and r['LAT'] == -1.5, r.data
r.readstr("200301 5   0 -150  2000" + " " * 46)
assert r['HR'] == 0, r['HR']
''')

S("p28-base36", "P28", [("IMMA1.py", "    return '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[t:t+1]\n",
                         "    return '0123456789ABCDEFGHIJKLMNPQRSTUVWXYZ'[t:t+1]\n")],
  "a base-36 digit above N", "writing shifts base-36 digits above N", '''
import IMMA1


class W(object):
    def write(self, s):
        self.s = s


r = IMMA1.IMMA()
line = "2003 1 51200 -150  2000" + " " * 2 + "P"
r.readstr(line)
w = W()
r.write(w)
assert w.s == line + "\\n", repr(w.s)
''')

S("p29-rime", "P29", [("CalcHums.py", "    w = (((a * t) + (b * t)) / (a + b))  # second t is t here rather than td because for ex, t==td\n",
                       "    w = (((a * t) + (b * td)) / (a + b))\n")],
  "air above freezing and dry enough for a frozen wet bulb", "relative humidity is taken over ice at temperatures above freezing", '''
import CalcHums as ch
import math
p = 1013.0
es = 6.1121 * (1.0007 + 3.46e-6 * p) * math.exp(((18.729 - 2.0 / 227.3) * 2.0) / 259.87)
got = ch.rh(-15.0, 2.0, p, roundit=False)
assert abs(got - 100.0 * ch.vap(-15.0, 2.0, p, roundit=False) / es) < 1e-9, got
''')

S("p29-silly", "P29", [("Extended_IMMA.py", "            if ((self.getvar('CRH') < 0.) or\n                    (self.getvar('CRH') > 150.)):\n                for var in hum_vars:\n",
                        "            if ((self.getvar('CRH') < 0.) or\n                    (self.getvar('CRH') > 150.)):\n                for var in hum_vars[:-1]:\n")],
  "dew point far above the air temperature", "an impossible dew point leaves its depression in the report", REP + '''
r = report(AT=5.0, DPT=25.0)
r.add_climate_variable('SLP', 1013.0)
r.calculate_humidity_variables(['SHU', 'VAP', 'CRH', 'CWB', 'DPD'])
assert [r.getvar(v) for v in ('SHU', 'VAP', 'CRH', 'CWB', 'DPD')] == [None] * 5
''')

MAIN = '''
import json
import os
import shutil
import tempfile
import BackgroundField as bf
import Climatology as cl
import Extended_IMMA as ex
import marine_qc as mq
''' + REP + '''

class Clim(object):
    def __init__(self, path, var):
        self.path, self.var = path, var

    def get_value(self, *a):
        return 5.0

    def get_value_mds_style(self, *a):
        return 5.0

    def get_value_ostia(self, *a):
        if self.path is None or not os.path.exists(self.path):
            return None
        return 273.15 + float(os.path.basename(self.path)[6:8])


def run(months, tracking=False, flags={}, bg=()):
    """months: {(year, month): [(uid, id, day)]}; runs March 2003 and returns the reports given to the checks and the files"""
    top = tempfile.mkdtemp()
    keep = (cl.Climatology.from_filename, ex.MarineReportQC.perform_base_qc, mq.IMMA, mq.gzip, sys.argv, os.environ.get('SCRATCH'))
    try:
        recs = []
        os.mkdir(top + '/out')
        for f in bg:
            with open(top + '/' + f, 'w') as g:
                g.write('x')
        os.environ['SCRATCH'] = top
        for (y, m), rows in months.items():
            with open(top + '/%04d-%02d' % (y, m), 'w') as f:
                for uid, ident, day in rows:
                    f.write('%d\\n' % len(recs))
                    recs.append(dict(ID=ident, UID=uid, YR=y, MO=m, DY=day, HR=6.0, LAT=10.0, LON=20.0, SST=10.0, AT=9.0, DPT=8.0,
                                     SLP=1000.0, PT=7))
        with open(top + '/bad', 'w') as f:
            f.write('NOBODY\\n')
        par = dict((k, {}) for k in ('track_check', 'IQUAM_track_check', 'IQUAM_spike_check', 'saturated_runs',
                                     'multiple_rounded_values', 'find_repeated_values', 'mds_buddy_check', 'slp_buddy_check'))
        par.update(runid='run7', icoads_dir=[top], icoads_filenames=['YYYY-MMMM'], background_dir=[top],
                   background_filenames=['YYYYMMMMDDDD'], climatologies=[
            [v, s, 'f', v] for v in ('SST', 'AT', 'SLP2', 'SHU', 'CRH', 'CWB', 'DPD', 'DPT', 'AT2', 'SLP') for s in ('mean', 'stdev')])
        with open(top + '/p.json', 'w') as f:
            f.write(json.dumps(par))
        with open(top + '/c.txt', 'w') as f:
            f.write('[Directories]\\nICOADS_dir = x\\nout_dir = %s/out\\n[Files]\\nIDs_to_exclude = %s/bad\\nparameter_file = %s/p.json\\n'
                    '[Icoads]\\nicoads_version = 3.0\\n[Climatologies]\\nOld_SST_stdev_climatology = f\\n'
                    'SST_buddy_one_box_to_buddy_avg = f\\nSST_buddy_one_ob_to_box_avg = f\\nSST_buddy_avg_sampling = f\\n' % (top, top, top))
            for s in ('DJF', 'MAM', 'JJA', 'SON'):
                f.write('%s_ostia_background = f\\n' % s)
        given = []

        class Rec(keep[2]):
            def readstr(self, line):
                self.data.update(recs[int(line)])

        class Gzip(object):
            def open(self, name, mode):
                return open(name)

        def base(self, parameters):
            for t, n in [('POS', x) for x in ('date', 'time', 'pos', 'blklst', 'is780', 'day', 'trk')] + [
                    (v, x) for v in ('SST', 'AT', 'DPT', 'SLP') for x in ('noval', 'freez', 'clim', 'nonorm')] + [
                    ('AT', 'mat_blacklist'), ('DPT', 'hum_blacklist')]:
                self.set_qc(t, n, flags.get((self.getvar('UID'), t, n), 0))
            self.set_qc('POS', 'isship', 1)
            self.set_qc('POS', 'isdrifter', 1)

        def check(self, *a, **k):
            pass

        def buddy(self, intype, *a):
            given.append((intype, [r.getvar('UID') for r in self.reps if self.filter.test_report(r) == 0], list(self.reps)))
        for n in ('track_check', 'iquam_track_check', 'spike_check', 'find_saturated_runs', 'find_multiple_rounded_values',
                  'find_repeated_values'):
            setattr(ex.Voyage, n, check)
        ex.Deck.mds_buddy_check = buddy
        ex.Deck.bayesian_buddy_check = check
        cl.Climatology.from_filename = staticmethod(lambda path, var: Clim(path, var))
        ex.MarineReportQC.perform_base_qc = base
        mq.IMMA, mq.gzip = Rec, Gzip()
        sys.argv = ['x', '-config', top + '/c.txt', '-year1', '2003', '-month1', '3', '-year2', '2003', '-month2', '3'] + (
            ['-tracking'] if tracking else [])
        mq.main([])
        files = {}
        for d, _, fs in os.walk(top + '/out'):
            for f in fs:
                with open(d + '/' + f) as g:
                    files[f] = g.read()
        return given, files
    finally:
        shutil.rmtree(top)


'''

S("p30-norm", "P30", [("marine_qc.py", "        filt.add_qc_filter('DPT', 'nonorm', 0)\n", "        filt.add_qc_filter('AT', 'nonorm', 0)\n")],
  "a dew point without a climatology, or an air temperature without one", "the dew point buddy check gets reports without a normal", MAIN + '''
given, files = run({(2003, 2): [], (2003, 3): [('U1', 'A', 3), ('U2', 'A', 4)], (2003, 4): []},
                   flags={('U1', 'DPT', 'nonorm'): 1})
assert [u for v, u, r in given if v == 'DPT'] == [['U2']], given
''')

S("p30-day", "P30", [("marine_qc.py", "                        if rep.getvar('DY') != lastday:\n", "                        if rep.getvar('DY') > lastday:\n")],
  "reports of a month that are not in order of time", "an earlier day keeps the background of a later one", MAIN + '''
given, files = run({(2003, 2): [], (2003, 3): [('U1', 'A', 9), ('U2', 'A', 4)], (2003, 4): []}, tracking=True,
                   bg=['20030308', '20030303'])
got = dict((r.getvar('UID'), r.getvar('OSTIA')) for r in given[0][2])
assert abs(got['U1'] - 8.0) < 1e-6 and abs(got['U2'] - 3.0) < 1e-6, got
''')

S("p30-match", "P30", [("marine_qc.py", "qc.month_match(year, month, rep.getvar('YR'), rep.getvar('MO')))",
                        "qc.month_match(readyear, readmonth, rep.getvar('YR'), rep.getvar('MO')))")],
  "tracking mode, a drifter with reports in the neighbouring months only", "drifters of the neighbouring months are listed as well", MAIN + '''
given, files = run({(2003, 2): [('U1', 'B1', 9)], (2003, 3): [('U2', 'A1', 4)], (2003, 4): []}, tracking=True)
assert files['ID_file.txt'] == 'A1,A1\\n', files['ID_file.txt']
''')

S("p31-empty", "P31", [("BackgroundField.py", "            if os.path.isfile(fname) and os.stat(fname).st_size != 0:\n", "            if os.path.isfile(fname):\n")],
  "an empty background file in the preferred place and a good one in the next", "an empty background file is taken", '''
import shutil
import tempfile
import BackgroundField as bf
top = tempfile.mkdtemp()
try:
    os.environ['SCRATCH'] = top
    for d, t in (('a', ''), ('b', 'x')):
        os.mkdir(top + '/' + d)
        with open(top + '/' + d + '/20030405', 'w') as f:
            f.write(t)
    got = bf.get_background_filename([top + '/a', top + '/b'], ['YYYYMMMMDDDD'] * 2, 2003, 4, 5)
    assert got == top + '/b/20030405', got
finally:
    shutil.rmtree(top)
''')

S("p31-lead", "P31", [("BackgroundField.py", "        line = line.rstrip()\n", "        line = line.strip()\n")],
  "an excluded identifier that begins with a blank", "identifiers with leading blanks are not excluded", '''
import shutil
import tempfile
import BackgroundField as bf
top = tempfile.mkdtemp()
try:
    with open(top + '/x', 'w') as f:
        f.write(' 512\\n\\nA\\n')
    got = bf.process_bad_id_file(top + '/x')
    assert got == [' 512     ', 'A        '], got
finally:
    shutil.rmtree(top)
''')

SPH = '''
import math
import spherical_geometry as sph


def vec(lat, lon):
    a, o = math.radians(lat), math.radians(lon)
    return math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a)


def angle(p, q):
    u, v = vec(*p), vec(*q)
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return math.atan2(math.sqrt(sum(x * x for x in w)), sum(x * y for x, y in zip(u, v)))


'''

S("p32-pole", "P32", [("spherical_geometry.py", "        if np.cos(lat1) < 0.0000001:\n", "        if np.cos(lat1) < 0.001:\n")],
  "a course from a place within six kilometres of a pole", "every course from near the pole is due south or north", SPH + '''
for lon in (10.0, 100.0, -130.0):
    t = sph.course_between_points(89.96, 0.0, 89.90, lon)
    d = angle((89.96, 0.0), (89.90, lon)) * 6371.0088
    got = sph.lat_lon_from_course_and_distance(89.96, 0.0, t, d)
    assert angle(got, (89.90, lon)) * 6371.0088 < 0.01, (lon, t, got)
''')

S("p32-short", "P32", [("spherical_geometry.py", "    d = angular_distance(lat1, lon1, lat2, lon2)\n\n    if d != 0.0:\n", "    d = angular_distance(lat1, lon1, lat2, lon2)\n\n    if d > 0.001:\n")],
  "two places less than six kilometres apart", "the point in between is the first of them", SPH + '''
got = sph.intermediate_point(10.0, 20.0, 10.03, 20.03, 0.5)
assert abs(angle((10.0, 20.0), got) - angle((10.03, 20.03), got)) * 6371.0088 < 0.01, got
''')

S("p32-side", "P32", [("spherical_geometry.py", "np.cos(dr) - np.sin(lat1) * np.sin(lat))", "np.cos(dr) - np.sin(lat1) * abs(np.sin(lat)))")],
  "a course that ends in the south", "the end of a course in the southern hemisphere has a wrong longitude", SPH + '''
got = sph.lat_lon_from_course_and_distance(20.0, 30.0, 140.0, 5000.0)
assert abs(angle((20.0, 30.0), got) * 6371.0088 - 5000.0) < 0.01, got
''')


FULL = REP + """
r = report(ID='SHIP', UID='ABC123', YR=1950, MO=7, DY=21, HR=13.25, LAT=12.34, LON=-56.78, AT=12.3, SST=14.6, SLP=1012.5, DPT=8.7, DS=3, VS=4, DCK=927, PT=5)
"""

S("p33-half", "P33", [("Extended_IMMA.py", "        ret = round(var * scale)\n", "        ret = int(var * scale + 0.5)\n")],
  "a negative value", "negative values are a unit too high in the fixed-width text", FULL + """
r.setvar('AT', -5.2)
assert r.print_report()[66:74] == '     -52', r.print_report()
""")

S("p33-zero", "P33", [("Extended_IMMA.py", "        dsvs = 9999\n        if self.getvar('DS') is not None and self.getvar('VS') is not None:\n            dsvs = (self.getvar('DS') * 100 + self.getvar('VS'))\n\n        lon = round(self.lon() * 100, 0)\n\n        shipid = self.getvar('ID')\n        if shipid is None:\n            shipid = '         '\n\n        qc_block = \"{:d}{:d}{:d}{:d}{:d}{:d}{:d}{:d} \"\n        qc_end",
  "        dsvs = 9999\n        if self.getvar('DS') and self.getvar('VS'):\n            dsvs = (self.getvar('DS') * 100 + self.getvar('VS'))\n\n        lon = round(self.lon() * 100, 0)\n\n        shipid = self.getvar('ID')\n        if shipid is None:\n            shipid = '         '\n\n        qc_block = \"{:d}{:d}{:d}{:d}{:d}{:d}{:d}{:d} \"\n        qc_end")],
  "a ship at rest (course and speed code 0)", "course and speed are written as missing", FULL + """
r.setvar('DS', 0)
r.setvar('VS', 0)
assert r.print_report()[98:106] == '       0', r.print_report()
""")

S("p33-block", "P33", [("Extended_IMMA.py", "                                               self.get_qc('DPT', 'rep'),\n", "                                               self.get_qc('AT', 'rep'),\n")],
  "repeated dew points with air temperatures that are not repeated", "the long text has the wrong flag", FULL + """
r.set_qc('DPT', 'rep', 1)
r.set_qc('AT', 'rep', 0)
assert r.print_longform_report().split()[-2] == '999999919', r.print_longform_report()
""")


SUN = """
import math
def almanac(y, d, hours, lon):
    import datetime
    n = (datetime.datetime(y, 1, 1) - datetime.datetime(2000, 1, 1, 12)).total_seconds() / 86400.0 + d - 1 + hours / 24.0
    g = math.radians(357.528 + 0.9856003 * n)
    lam = math.radians(280.460 + 0.9856474 * n + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 4e-7 * n)
    dec = math.degrees(math.asin(math.sin(eps) * math.sin(lam)))
    ra = math.degrees(math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))) % 360
    return dec, ra, (280.46061837 + 360.98564736629 * n + lon) % 360
def apart(a, b):
    return abs((a - b + 180) % 360 - 180)
"""

S("p34-summer", "P34", [("qc.py", "    time_in_hours = hour + (minute + sec / 60.) / 60. + zone - dasvtm\n", "    time_in_hours = hour + (minute + sec / 60.) / 60. + zone\n    if hour >= 1:\n        time_in_hours = time_in_hours - dasvtm\n")],
  "daylight saving in the first hour of the day", "the hour after midnight is told an hour late in summer", "import qc\n" + SUN + '''
az, el, ra, ha, sid, dec = qc.sunangle(1999, 180, 0, 30, 0, 0, 1, 50.0, 0.0)
assert apart(sid, almanac(1999, 180, -0.5, 0.0)[2]) < 0.02, sid
''')

S("p34-tilt", "P34", [("qc.py", "    angle_of_elliptic = 0.409140 - 6.2149e-9 * time\n", "    angle_of_elliptic = 0.409140 - 6.2149e-9 * abs(time) * 4\n")],
  "dates long before or after 1980", "the sun's declination at midsummer is off more and more with the years", "import qc\n" + SUN + '''
az, el, ra, ha, sid, dec = qc.sunangle(1750, 172, 12, 0, 0, 0, 0, 50.0, 0.0)
assert abs(dec - almanac(1750, 172, 12.0, 0.0)[0]) < 0.05, (dec, almanac(1750, 172, 12.0, 0.0))
''')

S("p34-east", "P34", [("qc.py", "            if azimuth < 0:\n                azimuth = azimuth + 360.0\n            azimuth = 180.0 - azimuth\n", "            azimuth = 180.0 - abs(azimuth)\n")],
  "the sun in the north-east quarter of the sky", "it is said to stand in the north-west", "import qc\n" + '''
import math
az, el, ra, ha, sid, dec = qc.sunangle(1999, 172, 3, 0, 0, 0, 0, 60.0, 0.0)
print(az, el, ha, dec)
assert abs(math.sin(math.radians(az)) * math.cos(math.radians(el)) + math.cos(math.radians(dec)) * math.sin(math.radians(ha))) < 1e-6, az
az, el, ra, ha, sid, dec = qc.sunangle(1999, 172, 21, 0, 0, 0, 0, 60.0, 0.0)
assert abs(math.sin(math.radians(az)) * math.cos(math.radians(el)) + math.cos(math.radians(dec)) * math.sin(math.radians(ha))) < 1e-6, az
''')


S("p35-quarter", "P35", [("qc.py", "        lower = (length / 4)\n", "        lower = ((length + 1) / 4)\n")],
  "a list whose length is three more than a multiple of four", "too many values are pulled in", "import py2compat; py2compat.REPO = '/repo'\nimport qc\n" + '''
assert abs(qc.winsorised_mean([7.0, 1.0, 2.0, 3.0, 4.0, 5.0, 60.0]) - (2 + 2 + 3 + 4 + 5 + 7 + 7) / 7.0) < 1e-9
''')

S("p35-trim", "P35", [("qc.py", "    index1 = (length / trim)\n", "    index1 = int(round(length / float(trim)))\n")],
  "a length which is not a multiple of the trimming number", "too many values are cut off", "import qc\n" + '''
assert abs(qc.trimmed_mean([7.0, 1.0, 2.0, 3.0, 4.0, 5.0, 60.0], 4) - 21 / 5.0) < 1e-9
assert abs(qc.trimmed_mean([float(i * i) for i in range(8)], 3) - (4 + 9 + 16 + 25) / 4.0) < 1e-9
''')

S("p35-turn", "P35", [("qc.py", "    if diff > np.pi:\n        diff = 2.0 * np.pi - diff\n    return diff", "    if diff > np.pi:\n        diff = diff - np.pi\n    return diff")],
  "two angles more than half a turn apart", "their difference is too small", "import qc\n" + '''
import math
assert abs(qc.angle_diff(0.1, 2 * math.pi - 0.1) - 0.2) < 1e-9
assert abs(qc.angle_diff(0.1, 0.2) - 0.1) < 1e-9
''')

S("p28-nrt", "P28", [("NRT.py", "date.minute/60.", "date.minute/100.")],
  "a near-real-time report between two hours", "its hour is wrong", "import NRT\n" + '''
r = NRT.NRT()
r.readstr("A1,x,2010-05-06T07:30:00,10.0,20.0,11.5")
assert r["HR"] == 7.5, r["HR"]
''')

S("p28-simple", "P28", [("SimpleIMMA.py", "line[42:46]", "line[42:45]")],
  "a short record with a dew point of ten degrees or more", "the dew point is a tenth of what it is", "import SimpleIMMA\n" + '''
r = SimpleIMMA.IMMA()
r.readstr("195001021200 4500 -3000" + "12SHIP     " + " 150 160 125" + "732100 5UID123\\n")
assert abs(r.data["DPT"] - 12.5) < 1e-9, r.data["DPT"]
''')

S("p20-older", "P20", [("Extended_IMMA.py", "self.get_neighbour_anomalies([1, 1, 4],", "self.get_neighbour_anomalies([1, 2, 4],")],
  "the older limits, with the nearest neighbours three or four pentads away at one and two rows", "cells two rows away count", "import Extended_IMMA as ex\n" + '''
class F:
    def get_value_mds_style(self, *a): return 1.0
g = ex.Np_Super_Ob()
g.add_rep(0.5, 0.5, 2003, 6, 1, 0.0)
g.add_rep(1.5, 0.5, 2003, 6, 19, 1.0)
g.add_rep(2.5, 0.5, 2003, 6, 19, 5.0)
g.take_average()
g.get_buddy_limits(F())
assert g.get_buddy_mean(0.5, 0.5, 6, 1) == 1.0, g.get_buddy_mean(0.5, 0.5, 6, 1)
''')
