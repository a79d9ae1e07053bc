"""C23: generated date ranges cover the span with all steps of the offset."""
import datetime

from symex.runner import case

from . import calendar

LO, HI = 3, 9950
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
DAY = 86400


def cases(tier):
    cs = []
    quick = tier == "quick"
    steps = 2 if quick else 4

    def ranged(h, rule, start, end):
        of = h.mod("scmdataframe.offsets")
        return list(of.generate_range(start, h.datetime_of(end), of.to_offset(rule)))

    def check_range(h, got, start, end, expected, most):
        """expected(i): the i-th date, in seconds"""
        h.check(len(got) >= 1, "at least one date")
        h.check(len(got) <= most, "not more dates than steps")
        secs = [h.seconds(g) for g in got]
        for i, s in enumerate(secs):
            h.eq(s, expected(i), "date {}".format(i))
        h.check(secs[0] <= start, "first date not after the start")
        h.check(expected(1) > start, "last such date")
        h.check(secs[-1] >= end, "last date not before the end")
        if len(secs) > 1:
            h.check(secs[-2] < end, "first such date")
            h.check(h.and_(*[a < b for a, b in zip(secs, secs[1:])]), "increasing")

    def draw(h, months=range(1, 13)):
        """Any instant: year, month (a plain number), day, hour, minute, second; seconds, datetime"""
        y, m = h.int("year", LO, HI), h.choice("month", list(months))
        d = h.int("day", 1, 31)
        h.assume(d <= calendar.days_in_month(h, y, m))
        parts = [y, m, d, h.int("hour", 0, 23), h.int("minute", 0, 59), h.int("second", 0, 59)]
        return parts + [calendar.seconds(h, *parts), h.datetime_parts(*parts)]

    months, months_text = ([1, 2, 7, 10, 12], "months 1, 2, 7, 10 and 12") if quick else (range(1, 13), "months")
    for code in ("AS", "A"):
        @case(cs, name="annual_{}".format(code), time=200 if quick else 900, query_ms=15000, max_paths=2000, conc=30,
              bounds="rules {0}, 3{0} (thorough: 10{0}) and {0} of any month: starts at any second of the {4} of the years {1} to {2}, spans up to {3} steps (one for multiples above 2)".format(code, LO, HI, steps, months_text))
        def annual(h, code=code):
            y, m, d, hh, mm, ss, start, at = draw(h, months)
            n, month = h.choice("rule", [(1, None), (3 if quick else 10, None), (1, 7), (1, 2), (2, 10)])
            rule = ("" if n == 1 else str(n)) + code + ("" if month is None else "-" + MONTHS[month - 1])
            month = month or (1 if code == "AS" else 12)
            if quick and n > 2:
                h.assume(m in (1, 12))
            end = start + h.int("span", 0, (1 if n > 2 else steps) * n * 365 * DAY)
            got = ranged(h, rule, at, end)
            if code == "AS":
                before = m < month
            else:
                before = h.or_(m < month, h.and_(m == month, d < calendar.days_in_month(h, y, month)))
            first = y - 1 if before else y

            def expected(i):
                year = first + i * n
                return calendar.seconds(h, year, month, 1 if code == "AS" else calendar.days_in_month(h, year, month), hh, mm, ss)

            check_range(h, got, start, end, expected, steps + 2)

    for code in ("MS", "M", "QS", "Q"):
        @case(cs, name="monthly_{}".format(code), time=250 if quick else 1200, max_paths=4000, conc=30,
              bounds="rules {0} and multiples or other anchors of it: starts at any second of the years {1} to {2}, spans up to {3} steps".format(code, LO, HI, steps))
        def monthly(h, code=code):
            y, m, d, hh, mm, ss, start, at = draw(h)
            q = 3 if code[0] == "Q" else 1
            n, anchor = h.choice("rule", [(1, None), (2, 2)] if q == 3 else [(1, None), (5, None)])
            rule = ("" if n == 1 else str(n)) + code + ("" if anchor is None else "-" + MONTHS[anchor - 1])
            anchor = anchor or {"QS": 1, "Q": 12}.get(code, 1)
            end = start + h.int("span", 0, steps * n * q * 28 * DAY)
            got = ranged(h, rule, at, end)
            # months before the start's month of the last date on the offset
            back = (m - anchor) % q
            if code[-1] != "S" and back == 0 and bool(d < calendar.days_in_month(h, y, m)):
                back = q

            def expected(i):
                k = m - 1 - back + i * n * q
                year, month = y + k // 12, k % 12 + 1
                return calendar.seconds(h, year, month, 1 if code[-1] == "S" else calendar.days_in_month(h, year, month), hh, mm, ss)

            check_range(h, got, start, end, expected, steps + 2)

    @case(cs, name="fixed", time=150, max_paths=1000, conc=30,
          bounds="rules D, 7D, H, 6H, T, S, W and weeks of any weekday: starts at any second of the years {} to {}, spans up to {} steps".format(LO, HI, steps))
    def fixed(h):
        day = h.int("day", calendar.year_start(LO) // DAY, calendar.year_start(HI + 1) // DAY)
        start = day * DAY + h.int("second", 0, DAY - 1)
        rule, step, weekday = h.choice("rule", [("D", DAY, None), ("7D", 7 * DAY, None), ("H", 3600, None), ("6H", 6 * 3600, None), ("30T", 1800, None),
                                                ("S", 1, None), ("W", 7 * DAY, 6), ("W-WED", 7 * DAY, 2), ("2W-MON", 14 * DAY, 0)])
        end = start + h.int("span", 0, steps * step)
        got = ranged(h, rule, h.datetime_of(start), end)
        first = start if weekday is None else start - ((day + 3 - weekday) % 7) * DAY
        check_range(h, got, start, end, lambda i: first + i * step, steps + 2)

    @case(cs, name="semi_monthly", time=250, max_paths=3000, conc=30,
          bounds="rules SM and SMS: starts at any second of the years {} to {}, spans up to 30 days".format(LO, HI))
    def semi_monthly(h):
        y, m, d, hh, mm, ss, start, at = draw(h)
        rule = h.choice("rule", ["SM", "SMS"])
        end = start + h.int("span", 0, 30 * DAY)
        got = ranged(h, rule, at, end)

        def date(k):
            """k half months from the start of the start's month (SMS: 1st, 15th; SM: 15th, last)"""
            t = m - 1 + k // 2
            year, month = y + t // 12, t % 12 + 1
            day = (1, 15)[k % 2] if rule == "SMS" else (15, calendar.days_in_month(h, year, month))[k % 2]
            return calendar.seconds(h, year, month, day, hh, mm, ss)

        first = -1
        while bool(date(first + 1) <= start):
            first += 1
        check_range(h, got, start, end, lambda i: date(first + i), 5)

    @case(cs, name="backwards", time=60, max_paths=100, conc=20, bounds="starts after the end, any seconds of the years {} to {}, rules AS, A, MS, D".format(LO, HI))
    def backwards(h):
        rule = h.choice("rule", ["AS", "A", "MS", "D"])
        end = h.int("end", calendar.year_start(LO), calendar.year_start(HI))
        start = end + h.int("ahead", 1, 10 ** 9)
        h.check(ranged(h, rule, h.datetime_of(start), end) == [], "no dates")

    @case(cs, name="refused", time=60, max_paths=200, conc=100, bounds="20 business rules, multiples of them, and other known rules")
    def refused(h):
        of = h.mod("scmdataframe.offsets")
        if h.flag("business"):
            rule = h.choice("rule", ["B", "C", "BM", "BMS", "CBM", "CBMS", "BQ", "BQS", "BA", "BAS", "BH", "CBH", "BA-JUN", "BQ-NOV", "BAS-APR", "BQS-FEB", "BY", "BYS"])
            rule = h.choice("multiple", ["", "2", "10"]) + rule
            h.raises(lambda: of.to_offset(rule), "ValueError", "business rule")
        else:
            rule = h.choice("rule", ["AS", "A", "Y", "YS", "QS", "Q", "MS", "M", "SM", "SMS", "W", "D", "H", "T", "S", "2AS", "A-NOV", "W-TUE"])
            h.check(h.attempt(lambda: of.to_offset(rule))[0] == "ok", "accepted")

    return cs
