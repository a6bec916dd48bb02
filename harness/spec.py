"""Reference definitions the harnesses compare with (plain integer arithmetic, no use of /repo)."""

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(y, m):
    """m must be 1..12"""
    return (29 if leap(y) else 28) if m == 2 else (30 if (m == 4 or m == 6 or m == 9 or m == 11) else 31)


def valid_date(y, m, d):
    return m >= 1 and m <= 12 and d >= 1 and d <= month_len(y, m)


def cum(m):
    """days before the month in a common year"""
    return (0 if m == 1 else 31 if m == 2 else 59 if m == 3 else 90 if m == 4 else 120 if m == 5 else 151 if m == 6
            else 181 if m == 7 else 212 if m == 8 else 243 if m == 9 else 273 if m == 10 else 304 if m == 11 else 334)


def day_of_year(y, m, d):
    return cum(m) + d + (1 if (leap(y) and m > 2) else 0)


def ordinal(y, m, d):
    """days since 31 Dec of year 0 (proleptic Gregorian)"""
    k = y - 1
    return 365 * k + k // 4 - k // 100 + k // 400 + day_of_year(y, m, d)


def doy365(m, d):
    """day number in a 365-day year, 29 Feb counted as 1 Mar"""
    return 60 if (m == 2 and d == 29) else cum(m) + d


def row_south(lat, res, n):
    """row of a latitude on a grid of n rows from 90N, borders pushed south"""
    k = int((90.0 - lat) // res)
    return n - 1 if k >= n else k


def col_east(lon, res, n):
    """column of a longitude (-540..540) on a grid of n columns from 180W, borders pushed east"""
    w = lon + 360.0 if lon < -180.0 else (lon - 360.0 if lon >= 180.0 else lon)
    return int((w + 180.0) // res)


def ceil_div(x, res):
    return 0 - int((0.0 - x) // res)


def row_out(lat, res, n):
    """row with borders pushed away from the equator (0 south, the poles inwards)"""
    if lat == 90:
        return 0
    if lat == -90:
        return n - 1
    return ceil_div(90.0 - lat, res) - 1 if lat > 0 else int((90.0 - lat) // res)


def col_out(lon, res, n):
    """column with borders pushed away from Greenwich (0 west, the date line inwards)"""
    if lon == 180:
        return n - 1
    if lon == -180:
        return 0
    return int((lon + 180.0) // res) if lon > 0 else ceil_div(lon + 180.0, res) - 1


def pentad(m, d):
    return (doy365(m, d) - 1) // 5 + 1
