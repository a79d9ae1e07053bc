"""C12: time points convert losslessly between representations."""
import numpy as np

from symex.runner import case

from . import calendar


def points(h, xs):
    return h.mod("core.time").TimePoints(xs)


def check_components(h, tp, i, y, m, d, hh, s):
    h.eq(tp.years()[i], y, "year")
    h.eq(tp.months()[i], m, "month")
    h.eq(tp.days()[i], d, "day")
    h.eq(tp.hours()[i], hh, "hour")
    h.eq(tp.weekdays()[i], (s // 86400 + 3) % 7, "weekday")


def cases(tier):
    cs = []

    for decade, (lo, hi) in enumerate([(1, 1677), (1678, 2262), (2263, 9998)]):
        @case(cs, name="components_{}".format(decade), time=100, max_paths=100, conc=30, bounds="every second of the years {} to {}".format(lo, hi))
        def components(h, lo=lo, hi=hi):
            y, m, d, hh, mm, ss, s = calendar.draw(h, lo=lo, hi=hi)
            tp = points(h, h.dts([h.dt64_of(s)]))
            h.check(h.dt_unit(tp.values) == "s", "time points are datetime64[s]")
            h.eq(h.seconds(tp.values[0]), s, "instant")
            check_components(h, tp, 0, y, m, d, hh, s)
            idx = list(tp.to_index())
            h.check(len(idx) == 1, "index length")
            h.eq(h.seconds(idx[0]), s, "index instant")

    @case(cs, time=60, max_paths=60, conc=20, bounds="lists or arrays of 1 to 4 integer years in 1 to 9999, in any order")
    def integer_years(h):
        n = int(h.int("n", 1, 4))
        ys = [h.int("y{}".format(i), 1, 9999) for i in range(n)]
        xs = list(ys)
        form = h.choice("form", ["list", "array", "texts"])
        if form == "texts":
            h.assume(n == 1)
            y = h.int("y", 1, 9998)
            xs = [h.digits(y, 4)]
            ys = [y]
        elif form == "array":
            xs = h.ints(xs)
        tp = points(h, xs)
        h.check(len(tp.values) == n, "number of time points")
        for i in range(n):
            h.eq(h.seconds(tp.values[i]), calendar.year_start(ys[i]), "1 January of the year")
        if n > 1:
            h.check((ys[0] < ys[1]) == (tp.values[0] < tp.values[1]) if not h.symbolic else h.iff(ys[0] < ys[1], tp.values[0] < tp.values[1]), "order")

    @case(cs, time=100, max_paths=100, conc=30, bounds="1 or 2 fractional years in 1 to 9998, any fraction (to the second)")
    def fractional_years(h):
        n = int(h.int("n", 1, 2))
        xs = [h.real("x{}".format(i), 1, 9998) for i in range(n)]
        h.assume(h.max(xs) < 9998)
        ys = [h.floor(x) for x in xs]
        fs = [x - y for x, y in zip(xs, ys)]
        text = h.choice("form", ["list", "array"])
        tp = points(h, h.floats(xs) if text == "array" else xs)
        for i in range(n):
            got = h.seconds(tp.values[i])
            want = fs[i] * calendar.year_seconds(h, ys[i])  # seconds into the year
            into = got - calendar.year_start(ys[i])
            h.check(h.and_(into <= want + 1, into >= want - 1), "fraction of the year")
        if n == 2 and h.mode_exact():
            h.check(h.implies(xs[0] <= xs[1], tp.values[0] <= tp.values[1]), "order")

    @case(cs, time=60, max_paths=60, conc=20, bounds="fractional years written as decimal text with 1 to 3 decimals")
    def fractional_text(h):
        k = int(h.int("decimals", 1, 3))
        y, fr = h.int("y", 1, 9997), h.int("fraction", 0, 10 ** k - 1)
        tp = points(h, [h.digits(y, 4) + "." + h.digits(fr, k)])
        into = h.seconds(tp.values[0]) - calendar.year_start(y)
        want = calendar.year_seconds(h, y) * fr
        h.check(h.and_(into * 10 ** k <= want + 10 ** k, into * 10 ** k >= want - 10 ** k), "fraction of the year")

    forms = ["datetime list", "datetime array", "datetime64 list", "datetime64 array", "index", "time points"]

    @case(cs, time=100, max_paths=100, conc=30, bounds="1 to 3 instants (any second in 0001 to 9998) as {}".format(", ".join(forms)))
    def instants(h):
        n = int(h.int("n", 1, 3))
        ss = [h.int("s{}".format(i), -62135596800, 253370764800) for i in range(n)]
        form = h.choice("form", forms)
        if form == "datetime list":
            xs = [h.datetime_of(s) for s in ss]
        elif form == "datetime array":
            xs = h.objs([h.datetime_of(s) for s in ss])
        elif form == "datetime64 list":
            xs = [h.dt64_of(s) for s in ss]
        elif form == "datetime64 array":
            xs = h.dts([h.dt64_of(s) for s in ss])
        elif form == "index":
            xs = points(h, h.dts([h.dt64_of(s) for s in ss])).to_index()
        else:
            xs = points(h, [h.datetime_of(s) for s in ss]).values
        tp = points(h, xs)
        h.check(len(tp.values) == n, "number of time points")
        h.check(h.dt_unit(tp.values) == "s", "time points are datetime64[s]")
        idx = tp.to_index()
        h.check(idx.name == "time", "index name")
        for i in range(n):
            h.eq(h.seconds(tp.values[i]), ss[i], "instant {}".format(i))
            h.eq(h.seconds(idx[i]), ss[i], "index instant {}".format(i))

    @case(cs, time=60, max_paths=60, conc=20, bounds="datetime64 in minutes, hours, days, months or years, in the years 1 to 9998")
    def coarse_units(h):
        u = h.choice("unit", ["m", "h", "D"])
        k = {"m": 60, "h": 3600, "D": 86400}[u]
        s = h.int("s", -62135596800 // k, 253370764800 // k) * k
        tp = points(h, h.dts([h.dt64_of(s)]).astype("datetime64[{}]".format(u)))
        h.eq(h.seconds(tp.values[0]), s, "instant")
        h.check(h.dt_unit(tp.values) == "s", "time points are datetime64[s]")

    for kind in ("date", "minutes", "seconds"):
        @case(cs, name="text_" + kind, time=100, max_paths=200, conc=30,
              bounds="every date text YYYY-MM-DD{} of the years 1 to 9998".format({"date": "", "minutes": " HH:MM", "seconds": " or T, HH:MM:SS"}[kind]))
        def text(h, kind=kind):
            y, m, d, hh, mm, ss, s = calendar.draw(h, time=kind != "date", lo=1000)
            if kind == "minutes":
                h.assume(ss == 0)
            t = h.digits(y, 4) + "-" + h.digits(m, 2) + "-" + h.digits(d, 2)
            if kind != "date":
                t = t + h.choice("sep", [" ", "T"]) + h.digits(hh, 2) + ":" + h.digits(mm, 2)
            if kind == "seconds":
                t = t + ":" + h.digits(ss, 2)
            xs = h.choice("container", ["list", "array"])
            tp = points(h, [t] if xs == "list" else h.strs([t]))
            h.eq(h.seconds(tp.values[0]), s, "instant")
            h.check(h.dt_unit(tp.values) == "s", "time points are datetime64[s]")

    @case(cs, time=30, max_paths=20, conc=10, bounds="no time points at all; texts which are no dates")
    def edge(h):
        for empty in ([], (), np.array([])):
            tp = points(h, empty)
            h.check(len(tp.values) == 0 and h.dt_unit(tp.values) == "s", "no time points")
        bad = h.choice("bad", ["Y2000", "2000-13-01", "2000-02-30", "no date"])
        h.raises(lambda: points(h, [bad]), "ValueError", "text which is no date")

    return cs
