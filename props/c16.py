"""C16: time filters select exactly the matching time points."""
import datetime

from symex.runner import case

from . import calendar
from .frames import make

MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def frame(h, seconds):
        """Two timeseries whose values tell the number of the time point."""
        n = len(seconds)
        return make(h, [[float(i + 1) for i in range(n)], [float(-i - 1) for i in range(n)]], seconds, {"variable": ["v", "w"]})

    def select(h, seconds, label="filter", **request):
        """The numbers of the time points kept by the filter."""
        df = frame(h, seconds)
        before = {k: list(v) if isinstance(v, list) else v for k, v in request.items()}
        r = df.filter(**request)
        for k, v in before.items():
            if isinstance(v, list):
                h.check(len(v) == len(request[k]) and all(a is b for a, b in zip(v, request[k])), "request for {} stays as it is".format(k))
        kept = []
        if len(r) == 0:
            return kept
        h.check(len(r) == 2, "all timeseries stay")
        v = r.values
        tp = r.time_points
        h.check(len(v[0]) == len(v[1]) == len(tp), "aligned")
        for a, b in zip(v[0], v[1]):
            h.check(float(a) == -float(b) and 1 <= float(a) <= len(seconds), "values")
            kept.append(int(float(a)) - 1)
        h.check(kept == sorted(set(kept)), "order")
        for j, i in enumerate(kept):
            h.eq(h.seconds(tp[j]), seconds[i], "time of {}".format(i))
        return kept

    def expect(h, kept, wanted, label):
        for i, w in enumerate(wanted):
            h.check(h.iff(i in kept, w), "{} {}".format(label, i))

    def oneof(h, x, xs):
        return h.or_(False, *[x == y for y in xs])

    def instants(h, n, lo=1, hi=9998):
        """(year, month, day, hour, minute, second, seconds) of n times in order"""
        ts = [h.int("t{}".format(i), calendar.year_start(lo), calendar.year_start(hi + 1) - 1) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            h.assume(a < b)
        return [h.civil(t) + (t % 86400 // 3600, t % 3600 // 60, t % 60, t) for t in ts]

    def requested(h, name, lo, hi, kmax=2):
        """A number or a list of numbers: the request and the numbers."""
        form = h.choice("form", ["one"] + ["list{}".format(k) for k in range(kmax + 1)])
        if form == "one":
            x = h.int(name, lo, hi)
            return x, [x]
        xs = [h.int("{}{}".format(name, i), lo, hi) for i in range(int(form[4:]))]
        return xs, list(xs)

    for name, at, lo, hi in (("year", 0, 1, 9998), ("month", 1, 1, 12), ("day", 2, 1, 31), ("hour", 3, 0, 23)):
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            @case(cs, name="{}_{}".format(name, n), time=60 if quick else 600, max_paths=2000, conc=20,
                  bounds="{} time points, any seconds of the years 1 to 9998, {} given as number or list of up to 2 numbers".format(n, name))
            def numbers(h, name=name, at=at, lo=lo, hi=hi, n=n):
                ts = instants(h, n)
                req, xs = requested(h, "x", lo, hi)
                kept = select(h, [t[-1] for t in ts], **{name: req})
                expect(h, kept, [oneof(h, t[at], xs) for t in ts], name)

    def weekday(t):
        return (t[-1] // 86400 + 3) % 7

    def names_of(h, what, name):
        """One text requesting months or weekdays, and these (months from 0)."""
        names = MONTHS if what == "month" else DAYS
        form = h.choice(name + "form", ["short", "full", "range", "full range"])
        a = h.index(name + "a", len(names))
        show = (lambda s: s) if form.startswith("full") else (lambda s: s[:3])
        if "range" not in form:
            return show(names[a]), [a], form
        b = h.index(name + "b", len(names))
        h.assume(a <= b)
        return show(names[a]) + "-" + show(names[b]), list(range(a, b + 1)), form

    for what in ("month", "day"):
        def component(t, what=what):
            return t[1] - 1 if what == "month" else weekday(t)

        @case(cs, name="{}_names".format(what), time=100, max_paths=2000, conc=30,
              bounds="1 time point, any second of the years 1 to 9998, every English short or full name or increasing range, alone or in a list")
        def names(h, what=what, component=component):
            ts = instants(h, 1)
            text, xs, _ = names_of(h, what, "x")
            kept = select(h, [t[-1] for t in ts], **{what: [text] if h.flag("list") else text})
            expect(h, kept, [oneof(h, component(t), xs) for t in ts], what)

        @case(cs, name="{}_name_lists".format(what), time=100 if quick else 900, max_paths=3000, conc=30,
              bounds="1 time point, any second of the years 1 to 9998, lists of 2 or 3 short names or ranges of 4 of the names")
        def name_lists(h, what=what, component=component):
            ts = instants(h, 1)
            names = MONTHS if what == "month" else DAYS
            pool = [0, 1, 4, 6] if what == "day" else [0, 4, 7, 11]
            k = 2 if h.flag("two") else 3
            items, xs = [], []
            for i in range(k):
                a = h.choice("a{}".format(i), pool)
                if h.flag("range{}".format(i)):
                    b = {0: 1, 1: 6, 4: 6, 6: 6, 7: 11, 11: 11}[a]
                    items.append(names[a][:3] + "-" + names[b][:3])
                    xs += range(a, b + 1)
                else:
                    items.append(names[a][:3])
                    xs.append(a)
            if quick:
                h.assume(k == 2 or items[0] == names[0][:3])
            kept = select(h, [t[-1] for t in ts], **{what: items})
            expect(h, kept, [oneof(h, component(t), xs) for t in ts], what)

        @case(cs, name="{}_refused".format(what), time=60, max_paths=500, conc=30, bounds="all decreasing ranges of names and unintelligible texts")
        def refused(h, what=what):
            names = MONTHS if what == "month" else DAYS
            bad = h.choice("bad", ["decreasing", "full decreasing", "", "Foo", "Jan-Foo", "Mon-Foo", "Ja", "-", "Jan-Feb-Mar", "Mon-Tue-Wed",
                                   "Mon" if what == "month" else "Jan"])
            if "decreasing" in bad:
                show = (lambda s: s) if bad.startswith("full") else (lambda s: s[:3])
                a, b = h.index("a", len(names)), h.index("b", len(names))
                h.assume(a > b)
                bad = show(names[a]) + "-" + show(names[b])
            form = h.choice("form", ["text", "list", "first", "last"])
            req = {"text": bad, "list": [bad], "first": [bad, names[0][:3]], "last": [names[0][:3], bad]}[form]
            h.raises(lambda: frame(h, [0, 86400]).filter(**{what: req}), "ValueError", what)

    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        @case(cs, name="time_{}".format(n), time=60 if quick else 600, max_paths=3000, conc=20,
              bounds="{} time points, any seconds of the years 1 to 9998, a datetime or a list of up to 2 datetimes, datetime64 or time points".format(n))
        def time_(h, n=n):
            ts = instants(h, n)
            form = h.choice("form", ["one", "datetime0", "datetime1", "datetime2", "datetime641", "datetime642", "own", "array"])
            k = 1 if form in ("one", "own") else 2 if form == "array" else int(form[-1])
            xs = [h.int("x{}".format(i), calendar.year_start(1), calendar.year_start(9999) - 1) for i in range(k)]
            if form == "one":
                req = h.datetime_of(xs[0])
            elif form.startswith("datetime64"):
                req = [h.dt64_of(x) for x in xs]
            elif form == "array":
                req = h.dts([h.dt64_of(x) for x in xs])
            elif form == "own":
                other = frame(h, xs)
                req = list(other["time"])
            else:
                req = [h.datetime_of(x) for x in xs]
            kept = select(h, [t[-1] for t in ts], time=req)
            expect(h, kept, [oneof(h, t[-1], xs) for t in ts], "time")

    @case(cs, name="several", time=100 if quick else 600, max_paths=3000, conc=20,
          bounds="2 time points, any seconds of the years 1850 to 2300, two or three of: a year, a list of two months, a day, a list of two hours, two weekdays, an instant")
    def several(h):
        ts = instants(h, 2, 1850, 2300)
        pairs = [("year", "month"), ("month", "day"), ("year", "hour"), ("weekday", "hour"), ("time", "hour"), ("year", "weekday"), ("year", "month", "day")]
        which = h.choice("which", pairs)
        req, want = {}, [[] for _ in ts]
        for w in which:
            if w == "weekday":
                req["day"] = ["Tue", "Sat"]
                for i, t in enumerate(ts):
                    want[i].append(oneof(h, weekday(t), [1, 5]))
                continue
            if w == "time":
                x = h.int("time", calendar.year_start(1850), calendar.year_start(2300))
                req["time"] = [h.datetime_of(x)]
                for i, t in enumerate(ts):
                    want[i].append(t[-1] == x)
                continue
            at, lo, hi = {"year": (0, 1850, 2300), "month": (1, 1, 12), "day": (2, 1, 31), "hour": (3, 0, 23)}[w]
            xs = [h.int("{}{}".format(w, i), lo, hi) for i in range(2 if w in ("month", "hour") else 1)]
            req[w] = xs if w in ("month", "hour") else xs[0]
            for i, t in enumerate(ts):
                want[i].append(oneof(h, t[at], xs))
        kept = select(h, [t[-1] for t in ts], **req)
        expect(h, kept, [h.and_(True, *w) for w in want], "intersection")

    @case(cs, name="types", time=30, max_paths=100, conc=30, bounds="years that are no integers, times that are no datetimes")
    def types(h):
        what = h.choice("what", ["year", "time"])
        if what == "year":
            bad = h.choice("bad", [2000.0, [2000.0], ["2000"], [2000, 2001.5], "2000"])
            h.raises(lambda: frame(h, [0, 86400]).filter(year=bad), "TypeError", "year")
        else:
            bad = h.choice("bad", [2000, [2000], [datetime.datetime(2000, 1, 1), 2000]])
            h.raises(lambda: frame(h, [0, 86400]).filter(time=bad), "TypeError", "time")

    return cs
