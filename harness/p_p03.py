"""Calendar functions."""
from api import again, harness
import qc
import spec

BOUNDS = "years 1..4000 (yesterday: 1700..2200), every month and day; month ranges of up to 40 months for the month generator"
ASSUMPTIONS = []


@harness(quick=[{}])
def pentads(c, p):
    m, d = c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(d <= spec.month_len(2004, m))
    n = qc.day_in_year(m, d)
    c.observe("n", n)
    c.require(n == spec.doy365(m, d), "day_in_year counts the days of a 365-day year, 29 Feb as 1 Mar")
    w = qc.which_pentad(m, d)
    c.observe("w", w)
    c.require(w == (spec.doy365(m, d) - 1) // 5 + 1, "which_pentad is the five-day period of the day")
    c.require(w >= 1 and w <= 73, "pentads run from 1 to 73")


@harness(quick=[{}])
def pentad_start(c, p):
    k = c.int("p", 1, 73)
    m, d = qc.pentad_to_month_day(k)
    c.observe("md", [m, d])
    c.require(spec.valid_date(2003, m, d), "a date of the year")
    c.require(spec.doy365(m, d) == 5 * (k - 1) + 1, "the first day of the pentad")
    c.require(qc.which_pentad(m, d) == k, "which_pentad takes it back")


@harness(quick=[{}])
def pentad_bad(c, p):
    k = c.int("p", -100, 200)
    c.assume(k < 1 or k > 73)
    try:
        qc.pentad_to_month_day(k)
    except AssertionError:
        c.cover("refused")
        c.require(True, "refused")
        return
    c.forbid("a pentad outside 1..73 is refused")


@harness(quick=[{}])
def invalid_day(c, p):
    m, d = c.int("m", -2, 15), c.int("d", -2, 40)
    bad = m < 1 or m > 12
    if not bad:
        bad = d < 1 or d > spec.month_len(2004, m)
    c.assume(bad)
    try:
        qc.day_in_year(m, d)
        ok = False
    except AssertionError:
        ok = True
    c.require(ok, "day_in_year refuses a day that does not exist")
    try:
        qc.which_pentad(m, d)
        ok = False
    except AssertionError:
        ok = True
    c.require(ok, "which_pentad refuses a day that does not exist")


@harness(quick=[{}])
def day_of_the_year(c, p):
    y, m, d = c.int("y", 1, 4000), c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(d <= spec.month_len(y, m))
    n = qc.dayinyear(y, m, d)
    c.observe("n", n)
    c.require(n == spec.day_of_year(y, m, d), "dayinyear counts from 1 January, leap years included")


@harness(quick=[{}])
def day_of_the_year_bad(c, p):
    y, m, d = c.int("y", 1, 4000), c.int("m", -2, 15), c.int("d", -2, 40)
    bad = m < 1 or m > 12
    if not bad:
        bad = d < 1 or d > spec.month_len(y, m)
    c.assume(bad)
    try:
        qc.dayinyear(y, m, d)
        ok = False
    except AssertionError:
        ok = True
    c.require(ok, "dayinyear refuses a day that does not exist")


@harness(quick=[{}])
def month_lengths(c, p):
    y = c.int("y", 1, 4000)
    ml = qc.get_month_lengths(y)
    c.require(len(ml) == 12, "twelve months")
    for m in range(1, 13):
        c.require(ml[m - 1] == spec.month_len(y, m), "length of month %d" % m)


@harness(quick=[{}])
def yesterday(c, p):
    y, m, d = c.int("y", 1700, 2200), c.int("m", 1, 12), c.int("d", 1, 31)
    c.assume(d <= spec.month_len(y, m))
    a, b, e = qc.yesterday(y, m, d)
    c.observe("r", [a, b, e])
    first = d == 1
    c.require(spec.valid_date(a, b, e), "yesterday is a date")
    if first:
        if m == 1:
            c.require(a == y - 1 and b == 12 and e == 31, "the day before 1 January is 31 December")
        else:
            c.require(a == y and b == m - 1 and e == spec.month_len(y, m - 1), "the day before the 1st ends the month before")
    else:
        c.require(a == y and b == m and e == d - 1, "the day before within a month")


@harness(quick=[{}])
def yesterday_bad(c, p):
    y, m, d = c.int("y", 1700, 2200), c.int("m", -2, 15), c.int("d", -2, 40)
    bad = m < 1 or m > 12
    if not bad:
        bad = d < 1 or d > spec.month_len(y, m)
    c.assume(bad)
    r = qc.yesterday(y, m, d)
    c.require(r[0] is None and r[1] is None and r[2] is None, "no yesterday for a date that does not exist")


@harness(quick=[{}])
def seasons(c, p):
    m = c.int("m", -30, 30)
    s = qc.season(m)
    if m < 1 or m > 12:
        c.require(s is None, "no season for a month that does not exist")
    else:
        want = "DJF" if (m == 12 or m <= 2) else "MAM" if m <= 5 else "JJA" if m <= 8 else "SON"
        c.require(s == want, "season of the month")
    c.observe("s", s)


@harness(quick=[{}])
def months(c, p):
    y, m = c.int("y", -4000, 4000), c.int("m", 1, 12)
    ly, lm = qc.last_month_was(y, m)
    ny, nm = qc.next_month_is(y, m)
    c.observe("r", [ly, lm, ny, nm])
    c.require(lm >= 1 and lm <= 12 and 12 * ly + lm == 12 * y + m - 1, "the month before")
    c.require(nm >= 1 and nm <= 12 and 12 * ny + nm == 12 * y + m + 1, "the month after")
    y2, m2 = c.int("y2", -4000, 4000), c.int("m2", 1, 12)
    r = qc.month_match(y, m, y2, m2)
    c.require((r == 1) == (y == y2 and m == m2), "month_match tells the same month")
    c.require(r == 0 or r == 1, "0 or 1")


@harness(quick=[{"n": 16}], thorough=[{"n": 40}])
def generator(c, p):
    y, m = c.int("y", 1, 4000), c.int("m", 1, 12)
    k = c.int("k", 0, p["n"])
    t = 12 * y + (m - 1) + k
    y2, m2 = t // 12, t % 12 + 1
    i = 0
    for a, b in qc.year_month_gen(y, m, y2, m2):
        c.require(b >= 1 and b <= 12 and 12 * a + b - 1 == 12 * y + m - 1 + i, "the months follow one another")
        i += 1
        if i > p["n"] + 2:
            c.forbid("the generator stops at the last month")
            return
    c.observe("i", i)
    c.require(i == k + 1, "every month from the first to the last, once")


for _n in ("pentads", "pentad_start", "invalid_day", "day_of_the_year", "month_lengths", "seasons"):
    again(_n, quick=[{}])
