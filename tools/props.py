"""The properties (source of properties.jsonl and MANIFEST.json)."""

PROPS = []
NOT_APPLICABLE = []

SAMPLED = "The unit tests try a handful of values; "


def P(id, title, statement, all, why, files, mech, observe, note, over=("inputs",), state=None):
    d = dict(id=id, title=title, statement=statement, all=all, why=why, files=list(files), mech=mech, observe=observe,
             note=note, over=list(over))
    if state:
        d["state"] = state
    PROPS.append(d)


def bounded(what):
    return "Every input within the stated bounds is decided by z3 on the executed source; " + what


P("P01", "Single-value checks flag exactly the values outside their limits",
  "For every value, climatology, standard deviation and limit, the single-value checks (missing value, missing normal, "
  "hard limits, climatology, climatology with clamped standard deviation, climatology with low bar, supersaturation, "
  "freezing, wind consistency) return 0 or 1 and return 1 exactly when their documented condition is broken. Hard limits "
  "are inclusive, anomaly limits fail only when strictly exceeded, and the clamped standard deviation lies between the "
  "given minimum and maximum. Whatever a check needs and does not have makes it fail, except that a missing SST is not "
  "frozen and a missing wind speed or direction only contradicts the other.",
  "all real values, climatologies, standard deviations and limits in [-1e6, 1e6], and every combination of missing ones",
  SAMPLED + "the borders of every comparison and the 2^k combinations of missing inputs are not reached.",
  ["qc.py"], [("value_check, no_normal_check, hard_limit", "qc.py"), ("climatology_check, climatology_plus_stdev_check, "
   "climatology_plus_stdev_with_lowbar", "qc.py"), ("supersat_check, sst_freeze_check, wind_consistency", "qc.py")],
  ["return values of the checks"],
  bounded("reals, and IEEE doubles for the comparison kernels; standard deviations are assumed positive"))

P("P02", "Position, date and time checks accept exactly the valid ones",
  "A position passes exactly when latitude is in [-90, 90] and longitude in [-180, 360]; an hour passes exactly when it "
  "is in [0, 24) and not missing. A date passes exactly when its year is in 1850-2024 and its day exists in that month "
  "of that year, leap years included; a missing day or a month that does not exist fails and never raises.",
  "every finite position, every hour, every integer year, month and day, present or missing",
  SAMPLED + "leap-year, month-end and border cases over all years and positions are unreached.",
  ["qc.py"], [("position_check, date_check, time_check", "qc.py")], ["return values of the checks"],
  bounded("positions and hours are IEEE doubles"))

P("P03", "Calendar helpers agree with the Gregorian calendar",
  "Day-of-year (with and without leap years), pentads, pentad start dates, month lengths, the day before, the season, "
  "previous and next month and month ranges are what the Gregorian calendar says for every date. 29 February counts as "
  "1 March in 365-day years, pentads run from 1 to 73 and invert their start dates. Days and months that do not exist "
  "are refused or answered with no value, as documented.",
  "every date of the years 1-4000 and every out-of-range day or month near them",
  SAMPLED + "all dates, century years and invalid dates are not tried.",
  ["qc.py", "Extended_IMMA.py"], [("day_in_year, dayinyear, which_pentad, pentad_to_month_day", "qc.py"),
   ("get_month_lengths, yesterday, season, last_month_was, next_month_is, year_month_gen, month_match", "qc.py")],
  ["return values"], bounded("years 1-4000, month ranges up to 40 months"))

P("P04", "Time arithmetic and the day/night test follow the calendar and the sun",
  "The Julian day number is that of the Gregorian calendar, and the difference of two reports' times is the elapsed "
  "number of hours, negative backwards and absent when an hour is missing. The day test asks for the sun once, at the "
  "report's place and at the instant the given number of hours (one by default) before the report, across day, month "
  "and year boundaries, and says day exactly when the sun was above the horizon then.",
  "every date of the years 1-4000 (day test 1700-2200), every hour and place",
  SAMPLED + "the carry over midnight, month ends and leap days at every real hour is not covered.",
  ["qc.py"], [("jul_day, time_difference, day_test", "qc.py")], ["return values", "arguments of the sun position"],
  bounded("the sun's elevation is an uninterpreted function (its formula is outside)"))

P("P05", "Positions map to exactly the grid cell that contains them",
  "For every latitude, longitude and resolution the grid indices are in range and name the cell that contains the point. "
  "Points on a border go south and east by the default rule, and away from the equator and Greenwich by the other, with "
  "the poles and the date line in the outermost cells. The centre of a cell maps back to its own indices.",
  "every latitude in [-90, 90] and longitude in [-180, 180] (wrapped longitudes to +-540), resolutions 5 to 0.05 degrees",
  SAMPLED + "border points at every resolution, the poles and the date line are mostly untried.",
  ["qc.py"], [("lat_to_yindex, lon_to_xindex, mds_lat_to_yindex, mds_lon_to_xindex, yindex_to_lat, xindex_to_lon", "qc.py")],
  ["return values"], bounded("coordinates are exact reals: rounding right at a border is outside"))

P("P06", "Climatology lookups read the cell and time step of the report",
  "For every position and date a climatology lookup returns the contents of the grid cell holding the position at the "
  "time step holding the date, for climatologies of one, 73 or 365 steps and every grid resolution. A masked cell or a "
  "date that does not exist gives no value. Fields read from file are put the right way up and the right way round "
  "whatever their orientation.",
  "arbitrary field contents and masks, every position, every month and day",
  SAMPLED + "masked cells, borders, all time steps and all orientations are not combined.",
  ["Climatology.py", "qc.py"], [("Climatology.get_value, get_value_mds_style, get_value_ostia, get_tindex, from_filename",
   "Climatology.py"), ("get_sst_single_field, get_sst_daily, get_hires_sst", "qc.py")],
  ["values returned", "indices read from the field"],
  bounded("field contents are uninterpreted functions of the indices; coordinates exact reals"))

P("P07", "Interpolated climatology values are bilinear in the four surrounding cells",
  "The four cells chosen for a point are neighbouring grid centres that bracket it, wrapping at the date line and using "
  "the outermost row at the poles. The interpolated value is linear along the edges and between them, missing corners "
  "are filled with the mean of those beside them, and there is a value exactly when a touched cell has one.",
  "every position, arbitrary fields with any cells masked, every date",
  SAMPLED + "the date line, the poles and partly masked boxes are hardly covered.",
  ["qc.py", "Climatology.py"], [("get_four_surrounding_points, bilinear_interp, fill_missing_vals, mean_of", "qc.py"),
   ("get_clim_interpolated, get_hires_clim, get_sst", "qc.py")], ["return values", "indices read from the field"],
  bounded("lookups are checked near chosen meridians (5 quick, 29 thorough); the bilinear formula is settled separately"))

P("P08", "Blacklists and platform classes select exactly the documented reports",
  "A report is blacklisted exactly when it is at 0/0, from a C-MAN station or an excluded deck, within a listed area "
  "and period of its deck, or carries a listed name; the listed buoys, marine-air-temperature, wind and humidity "
  "exclusions apply exactly to their documented decks, platform types, areas and years. Generic identifiers are exactly "
  "the listed ones, some of them only in given years, and a missing identifier is generic. Ship, buoy, drifter and deck "
  "flags follow the platform type and deck of the report.",
  "every identifier, deck, platform type, year, month and position",
  SAMPLED + "the tables' area and period borders and arbitrary identifiers are not enumerated.",
  ["qc.py", "Extended_IMMA.py"], [("blacklist, mat_blacklist, humidity_blacklist, wind_blacklist, buoy_blacklist, "
   "id_is_generic", "qc.py, Extended_IMMA.py"), ("platform class flags of a report", "Extended_IMMA.py")],
  ["return values", "flags of the report"],
  bounded("identifiers of 9 printable characters (12 for the long name); positions exact reals"))

P("P09", "Base QC sets every flag of a report from that report's own data",
  "After base QC (whole, or for SST, pressure, wind or day air temperature alone) each quality flag equals the outcome "
  "of its check applied to the report's own value, climatology and limits; nothing is left unset and no flag is taken "
  "from another variable. Position, date and time flags judge the report's own place and time, and a report whose place "
  "or time is bad counts as day. A missing hour is set to 0 only for early deck 701 reports.",
  "every combination of values, normals, limits, positions and dates, any of them missing",
  "No existing test runs base QC of a whole report; each flag depends on which value and which parameter is wired in.",
  ["Extended_IMMA.py", "qc.py"], [("MarineReportQC.do_*_check, do_base_*_qc, do_kate_mat_qc, perform_base_*_qc, "
   "do_fix_missing_hour", "Extended_IMMA.py")], ["quality flags of the report"],
  bounded("one value or normal missing at a time (two in the thorough tier)"))

P("P10", "A QC filter passes exactly the reports whose listed flags have their values",
  "A filter passes a report exactly when every flag listed in it has the status wanted, an unset flag counting as 9; an "
  "empty filter passes everything and testing changes nothing. Splitting a deck hands every report to exactly one of the "
  "two decks, in the original order. Setting a flag on a deck sets it on each of its reports and on no other flag; only "
  "0 to 9 is accepted.",
  "every combination of flag values and wanted values, decks of up to three reports",
  SAMPLED + "the combinations of several conditions with unset flags are not reached.",
  ["Extended_IMMA.py"], [("QC_filter.test_report, split_reports", "Extended_IMMA.py"), ("Deck.set_qc, QC_Status",
   "Extended_IMMA.py")], ["result of the test", "reports of the two decks", "flags"],
  bounded("decks of up to 3 reports (thorough 4), up to 3 conditions"), over=("inputs", "histories"))

P("P11", "A deck hands out every passing report exactly once, one platform at a time",
  "Walking a deck platform by platform gives each report that passes the deck's filters exactly once, in deck order and "
  "only together with reports of the same identifier, whatever was appended, sorted, indexed or popped before. Sorting "
  "orders by identifier, missing identifiers first, then by time, and loses nothing; popping returns and removes the "
  "report at that place.",
  "every history of up to three operations, every pattern of passing reports, identifiers and times",
  SAMPLED + "no test combines sorting, popping and appending with the index by platform.",
  ["Extended_IMMA.py"], [("Deck.append, pop, sort, index_by_id, get_one_ID, get_one_platform_at_a_time",
   "Extended_IMMA.py")], ["the voyages handed out", "the reports held"],
  bounded("decks of up to 4 reports (thorough 5) of 3 platforms, histories of 2 operations (thorough 3)"),
  over=("inputs", "histories"), state=[("list_of_ids, index", "the index by identifier", "Extended_IMMA.py")])

P("P12", "A report returns what was stored in it and derives the rest from that",
  "Whatever variable of a report is set reads back and no other variable changes; its date-time always follows year, "
  "month, day and hour and is absent when they make no date. An anomaly exists exactly when value and climatology do and "
  "is their difference, normalised by the standard deviation on request. Unset quality flags are 9, only 0 to 9 is "
  "accepted and flags are independent; course and speed follow their codes, with speed classes of 5 knots from 1968 and "
  "of 3 knots before.",
  "every variable, value and change of them, every flag, every course and speed code and year",
  SAMPLED + "the dependence of derived data on the order of changes is not tested.",
  ["Extended_IMMA.py"], [("MarineReport.setvar, getvar, calculate_dt, calculate_dsi_vsi, getanom, get_normalised_anom, "
   "saturated, lat, lon", "Extended_IMMA.py"), ("QC_Status, ClimVariable", "Extended_IMMA.py")],
  ["values read back", "flags", "date-time"], bounded("up to three changes of a report"), over=("inputs", "histories"))

P("P13", "Reports are ordered by identifier, then by time",
  "A report precedes another exactly when its identifier is less or, for equal identifiers, its date-time is earlier; a "
  "missing identifier comes first. Exactly one of earlier, later and equal holds for reports with date-times, the six "
  "comparisons agree with each other, and the order is transitive. Sorting a voyage puts its reports in time order and "
  "loses none.",
  "all identifiers of up to two characters, all valid dates of 1850-2025 and hours",
  SAMPLED + "the order laws need all pairs.",
  ["Extended_IMMA.py"], [("MarineReport.__gt__, __lt__, __eq__, __ge__, __le__; Voyage.sort", "Extended_IMMA.py")],
  ["results of comparisons", "order of the reports"], bounded("pairs of reports; sorting of up to 3 (thorough 4)"))

P("P14", "Speeds, courses and positions along a voyage come from its own reports",
  "When a report is added its distance and course from the previous report and the elapsed time are stored and its speed "
  "is distance over time, with none of these for the first report, also after sorting. Alternate speeds join the two "
  "neighbours of a report. The predicted next point continues the last leg at its speed, projected-position discrepancies "
  "use the reported speeds and courses of both ends forwards and backwards, and the midpoint discrepancy is the distance "
  "to the great circle between the neighbours at the proportional time.",
  "every position, time, course and speed, any of hour, course and speed missing",
  SAMPLED + "the wiring of which report's values are used is fixed by a few examples.",
  ["Extended_IMMA.py", "track_check.py"], [("MarineReport.__sub__, Voyage.add_report, sort, calc_alternate_speeds, "
   "predict_next_point, distr1, distr2, midpt", "Extended_IMMA.py"), ("distr1, distr2, midpt", "track_check.py")],
  ["extended variables of the reports", "discrepancies"],
  bounded("voyages of up to 4 reports (thorough 5); great-circle functions are uninterpreted"))

P("P15", "Repeated and rounded values are flagged exactly above their fraction",
  "In a voyage with more present values than the minimum count, a value is flagged as repeated exactly when the fraction "
  "of the present values equal to it exceeds the threshold, and flagged as rounded exactly when it is a whole number and "
  "whole numbers make up at least the threshold fraction. Missing values and voyages at or below the minimum count are "
  "never flagged, all these flags are reset to 0 first and other flags stay.",
  "every sequence of values, any missing, every threshold and minimum count",
  SAMPLED + "patterns of equal and missing values with borders of the fraction are not enumerated.",
  ["Extended_IMMA.py"], [("Voyage.find_repeated_values, find_multiple_rounded_values", "Extended_IMMA.py")], ["flags"],
  bounded("voyages of up to 5 reports (thorough 6)"))

P("P16", "Saturated runs are flagged exactly when long enough in count and time",
  "A report is flagged in the saturated-run check exactly when it belongs to an unbroken run of reports with equal air "
  "and dew point temperature that has more reports than the shortest run and lasts at least the time threshold from its "
  "first to its last report. Missing temperatures break a run, a run at the end of the voyage counts, and every other "
  "report has flag 0.",
  "every pattern of saturated, unsaturated and missing reports, all times and thresholds",
  SAMPLED + "runs at either end, several runs and equal times are not combined.",
  ["Extended_IMMA.py"], [("Voyage.find_saturated_runs", "Extended_IMMA.py")], ["flags"],
  bounded("voyages of up to 6 reports (thorough 8) in time order"))

P("P17", "The elements of the track check follow their documented limits",
  "The modal speed is the centre of the 3-knot bin with most speeds, the slowest of equals, at least 8.5 knots and none "
  "for fewer than two reports; the speed limits follow from it (15 and 20 knots for slow ships, otherwise a quarter "
  "above and below it and 30 knots). Direction fails when the sailed course is off the present or previous reported "
  "course by more than the limit (60 by default, around the circle), speed fails when both reported speeds are off the "
  "sailed one by more than the limit (10 knots by default), and the projected position fails when both discrepancies exceed "
  "the distance sailed at the mean reported speed; missing values never fail.",
  "every speed, course, distance and limit, any missing",
  SAMPLED + "wrap-around of courses, bin borders and missing values are not all met.",
  ["track_check.py"], [("modesp, set_speed_limits, direction_continuity, speed_continuity, check_distance_from_estimate, "
   "increment_position", "track_check.py")], ["return values"], bounded("up to 4 speeds (thorough 5)"))

P("P18", "The track check fails exactly the fast, displaced and inconsistent reports",
  "In a pass of the track check an interior report fails exactly when the speeds around it exceed the limit (of the "
  "report and either the alternate speed on the same side or the next speed), its midpoint discrepancy exceeds the limit, and its "
  "projected position, course, speed or absolute speed is inconsistent; the first and last reports never fail. Voyages "
  "of one or two reports get the few flag instead (not for deck 720 before 1891), generic identifiers pass. The full "
  "check repeats up to five passes, leaving out whoever failed before, and flags exactly those who failed a pass.",
  "every distance, course, speed, discrepancy and limit; every outcome of the passes",
  SAMPLED + "combinations of the three conditions, and how passes interact, are hardly covered.",
  ["Extended_IMMA.py", "track_check.py"], [("Voyage.track_check", "Extended_IMMA.py"),
   ("mds_track_check, mds_full_track_check", "track_check.py")], ["flags"],
  bounded("voyages of up to 4 reports (thorough 5), full check up to 6 (thorough 7)"))

P("P19", "Neighbour checks remove the worst report until the rest agree",
  "The IQUAM track check and the spike check compare each report with the given number of neighbours before and after "
  "it: a pair disagrees when distance less the tolerance exceeds what the speed limit allows in the elapsed time plus its "
  "tolerance, or when the values differ by more than the noise limit and by more than both gradients allow. The report "
  "with most disagreements, the first of equals, is flagged and taken out until none is left; limits are those of buoys "
  "for platform types 6 and 7. Missing values and generic identifiers are never flagged.",
  "every distance, value and limit, times of several patterns",
  SAMPLED + "which report of a tied or chained set is removed depends on patterns no test samples.",
  ["Extended_IMMA.py"], [("Voyage.iquam_track_check, spike_check", "Extended_IMMA.py")], ["flags"],
  bounded("voyages of up to 4 reports (thorough 5), up to 3 neighbours (thorough 4)"))

P("P20", "The buddy check compares each report with its nearest surroundings",
  "A report that passes the deck's filter is flagged by the buddy check exactly when its anomaly differs by the limit or "
  "more from the average of the cell averages (one-degree, five-day) of the other cells in the first search box that "
  "holds any. A box reaches the same distance east and west at every latitude, across the date line and the turn of the "
  "year but not beyond the poles, every cell counts once, and the limit is the standard deviation of the report's cell (1 "
  "when missing or negative) times the multiplier for the number of neighbouring observations, or 500 around zero without "
  "neighbours. Reports outside the filter neither count nor are flagged, and none is lost.",
  "every offset of reports within reach of the boxes at several places, all values, climatologies and deviations",
  SAMPLED + "the poles, the date line and the turn of the year combine with the four boxes in ways no test tries.",
  ["Extended_IMMA.py"], [("Np_Super_Ob, get_threshold_multiplier, Deck.mds_buddy_check", "Extended_IMMA.py")], ["flags"],
  bounded("decks of up to 4 reports (thorough 6) around nine cells"))

P("P21", "The Bayesian buddy check grades reports by their probability of gross error",
  "The flag of a report that passes the deck's filter is its probability of gross error in tenths, rounded down and at most "
  "9, by Bayes' rule from the prior, a uniform density of gross errors over the quantised values between the limits, and "
  "the normal probability of the report's quantum within those limits. The mean is the average of the neighbouring cell "
  "averages and the variance adds that of the report to that of the neighbour average (with each cell's noise divided by its "
  "number of reports); without neighbours the mean is 0 and the deviation 500. Results are probabilities, and arguments "
  "that make no sense are refused.",
  "all anomalies, fields, priors, quanta, limits, means and deviations",
  SAMPLED + "no test goes through values, counts and limits for which the probabilities must stay consistent.",
  ["Extended_IMMA.py", "qc.py"], [("Deck.bayesian_buddy_check, Np_Super_Ob", "Extended_IMMA.py"),
   ("p_data_given_good, p_data_given_gross, p_gross", "qc.py")], ["flags", "probabilities"],
  bounded("decks of up to 4 reports (thorough 5); erf is any odd increasing function between -1 and 1"))

P("P22", "A drifter is aground from where it stops moving until its end",
  "Both aground checks flag exactly the reports from the start of the last unbroken stretch in which the buoy, smoothed by "
  "running medians, moves no further than the position tolerance between windows, up to the end of the record. The first "
  "version compares each report with the last one within the longest period, the second with the end of the record, both "
  "at least the shortest period later. Records no longer than the smoothing window pass, every report of a drifter gets "
  "its flag, other platforms are left alone, missing positions or times and senseless settings are refused.",
  "all gaps, positions and distances, several window lengths and periods",
  SAMPLED + "which reports lie within a period, and where a stretch starts, depends on the pattern of gaps.",
  ["trackqc.py", "Extended_IMMA.py"], [("aground_check, new_aground_check", "trackqc.py"),
   ("Voyage.buoy_aground_check, Voyage.new_buoy_aground_check", "Extended_IMMA.py")], ["flags"],
  bounded("records of up to 6 reports (thorough 7); distances are uninterpreted"))

P("P23", "A drifter is flagged for speed exactly where it is too fast",
  "The first speed check flags a report exactly when it lies between a report and the last one within the longest period, at "
  "least the shortest period later, that are further apart than the speed limit allows. The second does the same with "
  "the first report at least the shortest period later, after reports that fail the neighbour track check as a ship are left "
  "out, and leaves no trace of that on the reports. Every report of a drifter gets its flag, other platforms are left "
  "alone, missing positions or times and senseless settings are refused, whatever the shortest period.",
  "all gaps, distances and speed limits, every outcome of the screening",
  SAMPLED + "which pairs of reports are compared depends on the pattern of gaps.",
  ["trackqc.py", "Extended_IMMA.py"], [("speed_check, new_speed_check", "trackqc.py"),
   ("Voyage.buoy_speed_check, Voyage.new_buoy_speed_check", "Extended_IMMA.py")], ["flags"],
  bounded("records of up to 4 reports (thorough 5); distances are uninterpreted"))

P("P24", "The ends of a drifter record are flagged up to where good data begin",
  "The tail check flags the beginning (and the end) of a drifter record exactly up to where good data begin, as found by "
  "windows moved inwards: first long ones whose mean or spread is too large, which condemn up to their middle, then "
  "short ones with too many far values, which condemn one report each, or all of their last window when none is good. A "
  "window with a background too uncertain ends the search, reports by day, in ice or without background are not compared, "
  "and a record without any good data is not flagged. Every report of a drifter gets both flags, other platforms are left "
  "alone, and unmatched or unsorted reports are refused.",
  "all temperatures and patterns of unusable and uncertain backgrounds, any mean and spread of a window",
  SAMPLED + "the two checks from both ends interact, and off-by-one errors show only in particular patterns.",
  ["trackqc.py", "Extended_IMMA.py"], [("sst_tail_check, trim_mean, trim_std", "trackqc.py"),
   ("Voyage.buoy_tail_check", "Extended_IMMA.py")], ["flags"], bounded("records of up to 6 reports"))

P("P25", "A drifter record is judged as a whole by bias, noise or far values",
  "With enough comparable reports all reports of a drifter are flagged biased exactly when the mean difference from the "
  "background exceeds the limit, and noisy exactly when their standard deviation exceeds what measurement and background "
  "allow. With fewer they are flagged exactly when enough differences are too far, but not when any background was too "
  "uncertain. Reports by day (the sun above the limit at their date, hour and place), in ice, without background or with "
  "too uncertain a background are not compared; trimmed means and deviations cut the given fraction off each end.",
  "all temperatures, backgrounds, numbers of reports needed and settings; any elevation of the sun",
  SAMPLED + "each combination of usable, masked and unusable reports selects another rule.",
  ["trackqc.py", "Extended_IMMA.py"], [("sst_biased_noisy_check, track_day_test, trim_mean, trim_std", "trackqc.py"),
   ("Voyage.buoy_bias_noise_check", "Extended_IMMA.py")], ["flags", "return values"],
  bounded("records of up to 4 reports (thorough 6)"))

P("P26", "Drifter records are cut at long gaps and submitted once, by kind",
  "From the months in which a drifter reported its record is cut into chunks exactly where at least the given number of "
  "months in a row have no reports; each chunk begins and ends with a month of data and none is lost, whatever the gap. A "
  "chunk is a start (end) edge case when fewer than gap months lie between it and the start (end) of the series, new when "
  "exactly gap months remain after it, and regular when no edge case. The wrapper submits each chunk its mode asks for "
  "exactly once, with its dates, kind and settings (all; regular ones; new ones; all but those near the end), and waits "
  "while the queue is full.",
  "all patterns of months with data, gaps of 1 to 14 months, all modes and lengths of the queue",
  SAMPLED + "gaps longer than the series or at its ends and chunks of two kinds are not among them.",
  ["YMCounter.py", "Tracking_QC_wrapper.py"], [("YMCounter", "YMCounter.py"), ("main, write_submission",
   "Tracking_QC_wrapper.py")], ["chunks", "submissions"],
  bounded("series of up to 7 months (thorough 9); files, queue and command line are stand-ins"), over=("inputs", "histories"))

P("P27", "The tracking QC checks what passed before and writes everything it read",
  "The tracking QC reads back every report, value and flag the main QC wrote for a drifter, whatever its identifier and "
  "missing values, and gives each drifter check exactly the reports that pass what comes before it (position, date, time, "
  "blacklist; then the SST flags, a Bayesian buddy flag below 4 and the earlier drifter checks), in time order. All reports "
  "are written with their flags, 9 where a check did not get them, to the directory of the last month and of each edge "
  "case. Missing, empty, unequal or mismatched files stop it before any check.",
  "every failing flag and every outcome of the checks, all kinds of chunk, missing values",
  "No test runs the tracking QC as a whole; which reports reach which check depends on flags of several stages.",
  ["tracking_qc.py", "Extended_IMMA.py", "BackgroundField.py"], [("main, EasyImma", "tracking_qc.py"),
   ("Voyage.write_output, Voyage.write_qc, Voyage.write_tracking_output, print_variable_block, print_qc_block",
    "Extended_IMMA.py"), ("safe_make_dir_generic", "BackgroundField.py")], ["reports given to the checks", "files"],
  bounded("up to 3 reports (thorough 4), values from small sets; files and the command line are stand-ins"),
  over=("inputs", "histories"))

P("P28", "IMMA records are read column by column and written back the same",
  "Reading an IMMA record gives each parameter of the core and of every attachment the value in its own columns, in its "
  "units, text as it stands and base-36 digits as numbers; blank columns, also those cut off at the end of the line, are "
  "missing values, never zeros. Writing the record puts every value back into its columns, numbers padded with blanks, "
  "whatever their sign and the attachments in it. At the end of the file nothing is read. The short, tabular and near-real-time "
  "records are read by their own columns likewise.",
  "all values that fit the columns of any one field, missing fields and many combinations of attachments",
  "No test reads or writes an IMMA record.", ["IMMA1.py", "SimpleIMMA.py", "TestIMMA.py", "NRT.py"],
  [("IMMA.read, IMMA.readstr, IMMA.write, IMMA.decode, IMMA.encode, parameters, definitions", "IMMA1.py"),
   ("readstr", "SimpleIMMA.py"), ("readstr", "TestIMMA.py"), ("readstr", "NRT.py")],
  ["values read", "text written"], bounded("one free field at a time (any), the others fixed; up to four attachments"))

P("P29", "Humidity variables follow their formulas, over ice when the bulb is frozen",
  "Vapour pressure, specific and relative humidity, wet bulb temperature and dew point depression follow their published "
  "formulas of dew point, air temperature and pressure: over ice exactly when the wet bulb is at or below freezing, the "
  "saturation of relative humidity exactly when the air is. Conversions between vapour pressure, specific humidity and dew "
  "point are inverse to each other, the wet bulb lies between dew point and air temperature, and results are to 0.1. A "
  "report has none of them when dew point, air temperature or pressure is missing or the relative humidity is below 0 or "
  "above 150, and all of them otherwise.",
  "any air temperature, dew points and pressures over the range of the formulas, any vapour pressure and humidity",
  SAMPLED + "the switch between water and ice depends on all three inputs.",
  ["CalcHums.py", "Extended_IMMA.py"], [("vap, vap_from_sh, sh, sh_from_vap, rh, wb, dpd, td_from_vap", "CalcHums.py"),
   ("MarineReport.calculate_humidity_variables", "Extended_IMMA.py")], ["return values", "variables of a report"],
  bounded("dew points and pressures from a set of 13 and 4 values, air temperature any"))

P("P30", "The main QC takes every report of three months through checks to output",
  "For each month of a run the QC reads the files of that month and its neighbours, those that exist, and keeps each "
  "readable report of the file's month whose identifier is not excluded exactly once, with the values of each climatology "
  "at its own place and date; in tracking mode also the background, ice and variance of the day before, if there is a file. "
  "Ship checks get, ship by ship, exactly the reports with a valid time and place and not blacklisted, and each buddy check "
  "exactly those that also passed the track check and the checks of its variable, with its own fields and parameters. The "
  "reports of the month are written once with their values and flags, and in tracking mode each drifter's reports and a "
  "list of the drifters.",
  "any failing flag and any outcome of the track check, unreadable records, missing files, any date and place",
  "No test runs the QC as a whole; which reports reach which check depends on flags of several stages.",
  ["marine_qc.py", "marine_qc_hires.py", "marine_qc_track_only.py", "Extended_IMMA.py"],
  [("main", "marine_qc.py"), ("main", "marine_qc_hires.py"), ("main", "marine_qc_track_only.py"),
   ("Deck.write_output, Deck.write_qc, Deck.write_min_output, Voyage.write_output, Voyage.write_qc, ClimatologyLibrary, "
    "print_variable_block, print_qc_block, tostring, datestring", "Extended_IMMA.py")],
  ["reports given to the checks", "values of the climatologies", "files"],
  bounded("up to 3 records (thorough 4); files, climatologies, record decoding and the command line are stand-ins"),
  over=("inputs", "histories"))

P("P31", "Input and output files are chosen by date, in order of preference",
  "The name of a file is its pattern with year, month and day of four, two and two digits filled in wherever they appear. "
  "Of several places the first that has the file counts, and none gives no name; a packed background is unpacked once into "
  "the scratch directory, empty files do not count, and without a date there is no file. Excluded identifiers are the "
  "lines of their list, padded to nine characters, blank lines left out; output directories are made when missing.",
  "all dates, all combinations of files present, empty, packed or missing, all identifiers",
  "Tests try a few dates with files of the authors' machines, which do not exist elsewhere.",
  ["BackgroundField.py"], [("process_bad_id_file, build_completions, safe_make_dir_generic, safe_make_dir, "
   "icoads_filename_from_stub, icoads_filename, process_string, make_filename, get_background_filename", "BackgroundField.py")],
  ["file names", "commands run", "directories made"], bounded("lists of up to 3 places (background: 2, thorough 3), names of up to 11 characters"))

P("P32", "Distances, courses and points on the sphere are those of spherical trigonometry",
  "The distance of two places is the angle between their directions from the centre times 6371.0088 km, at most half the "
  "way round, the same both ways and whatever whole turns are added to a longitude. The initial course, from 0 to 360 "
  "clockwise from north, and the distance lead from the first place to the second; the end of a course and distance is the "
  "place they lead to, with longitude from -180 to 180. The point a fraction of the way is that fraction of the distance "
  "from the first place and the rest from the second.",
  "every pair of places, every course, distances up to half the circumference, every fraction",
  "Tests use places along meridians and the equator, where terms of the formulas vanish.",
  ["spherical_geometry.py"], [("sphere_distance, angular_distance, lat_lon_from_course_and_distance, course_between_points, "
   "intermediate_point", "spherical_geometry.py")],
  ["return values"], bounded("exact trigonometry; antipodes, and courses from within 1e-7 of a pole, only in part"))

P("P33", "A report's fixed-width text has every value and flag in its column",
  "A report can be written as one line of fixed-width columns, in a short and a long form. Identifier and record number take "
  "nine and eight characters; each datum is the nearest whole number of its unit in an eight-character column - position, hour "
  "and anomalies in hundredths, data in tenths, longitude brought to -180..180 - with -32768 for what is missing and 9999 for "
  "a ship course and speed not both there. The quality flags follow in fixed places, 9 where no flag belongs.",
  "every value, flag and identifier, missing or not",
  "Tests print one or two reports and hardly look at the text; a value in the wrong column or unit goes unseen.",
  ["Extended_IMMA.py"], [("print_report, print_longform_report, pvar, printvar", "Extended_IMMA.py")],
  ["the text returned"], bounded("each value and its neighbours in turn; identifiers up to 10 characters; no value half-way "
  "between two units"))

P("P34", "The sun stands where the almanac puts it, whatever clock tells the time",
  "For any date, time, zone, daylight saving and place, the sun's declination and right ascension agree with the astronomical "
  "almanac within a tenth of a degree, and the local sidereal time within 0.02 degrees, for the years 1700 to 2199. The hour "
  "angle is sidereal time less right ascension; elevation (-90 to 90) and azimuth (0 to 360, east of north) follow from hour "
  "angle, declination and latitude on both hemispheres, but for the azimuth of a sun at the zenith. The same instant told "
  "otherwise - minutes, another zone, the next day or year, a longitude 360 degrees on - gives the same sun.",
  "every instant and place",
  "Tests compare a handful of instants of 1995, 1996, 2015 and 2016 at two places; day and night of all reports back to the "
  "18th century hang on it.",
  ["qc.py"], [("sunangle", "qc.py")],
  ["return values"], bounded("years 1700 to 2199 (thorough: sidereal time and instants 1600 to 2399)"))

P("P35", "Resistant averages cut off or pull in exactly the ends of the values",
  "The winsorised mean of a list is the mean after the lowest and the highest quarter (rounded down) are replaced by the "
  "innermost value of their own quarter's border, so it lies between the quartiles; the trimmed mean is the mean of what is left "
  "when one part in the given number (rounded down) is cut off each end, of everything for zero. Neither depends on the order. "
  "The mean of values that may be missing is that of those present, none without any; the difference of two angles within a full "
  "turn is the shorter way round.",
  "every list of values in any order, every pair of angles",
  "Tests average five lists of zeroes, fours or ascending numbers; where the cut falls and which border value is taken is not seen.",
  ["qc.py"], [("winsorised_mean, trimmed_mean, missing_mean, angle_diff", "qc.py")],
  ["return values"], bounded("1 to 5 values in any order (thorough: 6), 6 to 12 values in three orders; one part in 3 to 12"))

