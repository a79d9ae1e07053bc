"""Independent proleptic Gregorian calendar arithmetic, on numbers or solver terms."""
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(h, y):
    return h.and_(y % 4 == 0, h.or_(h.not_(y % 100 == 0), y % 400 == 0))


def year_start(y):
    """Seconds from 1970-01-01 to the start of year y."""
    p = y - 1
    return (365 * p + p // 4 - p // 100 + p // 400 - 719162) * 86400


def year_seconds(h, y):
    return h.ite(leap(h, y), 366, 365) * 86400


def seconds(h, y, m, d, hh=0, mm=0, ss=0):
    """m: a plain number"""
    days = CUM[m - 1] + d - 1
    if m > 2:
        days = days + h.ite(leap(h, y), 1, 0)
    return year_start(y) + days * 86400 + hh * 3600 + mm * 60 + ss


def days_in_month(h, y, m):
    return h.ite(leap(h, y), 29, 28) if m == 2 else DIM[m - 1]


def draw(h, name="", lo=1, hi=9998, time=True):
    """(year, month, day, hour, minute, second, seconds since 1970) of any instant in the given years."""
    day = h.int(name + "day", year_start(lo) // 86400, year_start(hi + 1) // 86400 - 1)
    y, m, d = h.civil(day * 86400)
    hh, mm, ss = (h.int(name + "hour", 0, 23), h.int(name + "minute", 0, 59), h.int(name + "second", 0, 59)) if time else (0, 0, 0)
    return y, m, d, hh, mm, ss, day * 86400 + hh * 3600 + mm * 60 + ss
