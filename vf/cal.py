"""Calendar arithmetic written independently of cftime and cf_units"""

LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CALENDARS = ["standard", "proleptic_gregorian", "noleap", "all_leap", "360_day", "julian"]
ALIAS = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}


def leap(cal, y):
    if cal == "noleap":
        return False
    if cal == "all_leap":
        return True
    if cal == "julian" or (cal == "standard" and y < 1582):
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(cal, y, m):
    cal = ALIAS.get(cal, cal)
    if cal == "360_day":
        return 30
    n = LEN[m - 1] + (1 if m == 2 and leap(cal, y) else 0)
    return n - 10 if cal == "standard" and (y, m) == (1582, 10) else n


def year_len(cal, y):
    return sum(month_len(cal, y, m) for m in range(1, 13))


_starts = {}


def _year_start(cal, y):
    """Days from 0001-01-01 to the start of year y"""
    s = _starts.setdefault(cal, [0, 0])
    while len(s) <= y:
        s.append(s[-1] + year_len(cal, len(s) - 1))
    return s[y]


def day(cal, y, m, d):
    """Days from 0001-01-01 of the calendar (year 1 onwards; no date of October 1582 in the mixed calendar)"""
    cal = ALIAS.get(cal, cal)
    return _year_start(cal, y) + sum(month_len(cal, y, k) for k in range(1, m)) + d - 1


def date(cal, n):
    """(year, month, day) of a day number"""
    cal = ALIAS.get(cal, cal)
    y = max(1, n // 367)
    while _year_start(cal, y + 1) <= n:
        y += 1
    n -= _year_start(cal, y)
    m = 1
    while n >= month_len(cal, y, m):
        n -= month_len(cal, y, m)
        m += 1
    return y, m, n + 1
