"""C11: generated time points are equidistant with the requested count."""
import numpy as np

from symex.runner import case

TYPES = ("point", "average", "POINT", "Average")


def spelling(h, kind):
    pt = h.mod("core.parameters").ParameterType
    opts = [kind, kind.upper(), kind.capitalize(), pt.POINT_TIMESERIES if kind == "point" else pt.AVERAGE_TIMESERIES]
    return h.choice("spelling", opts)


def cases(tier):
    cs = []
    nmax = 6 if tier == "quick" else 24
    span = 1 << 36 if tier == "quick" else 1 << 38

    for kind in ("point", "average"):
        @case(cs, name="grid_" + kind, time=60, max_paths=200, conc=12,
              bounds="start: every second in +-{} s of 1970, period length: every length of 1 to {} s, 1 to {} values, 4 spellings of the type".format(span, span // 64, nmax))
        def grid(h, kind=kind):
            ctp = h.mod("core.time").create_time_points
            start = h.int("start", -span, span)
            period = h.int("period", 1, span // 64)
            n = h.int("n", 1, nmax)
            n = int(n)
            r = ctp(h.dt64_of(start), h.td64_of(period), n, spelling(h, kind))
            expected = n if kind == "point" else n + 1
            h.check(len(r) == expected, "number of time points")
            h.check(h.dt_unit(r) == "s", "time points are datetime64[s]")
            for i in range(expected):
                h.eq(h.seconds(r[i]), start + i * period, "time point {}".format(i))

    @case(cs, time=40, max_paths=100, conc=10, bounds="start and period given in seconds, minutes, hours or days (every multiple up to 10^6), 1 to 4 values")
    def units(h):
        ctp = h.mod("core.time").create_time_points
        us, up = h.choice("unit_start", ["s", "m", "h", "D"]), h.choice("unit_period", ["s", "m", "h", "D"])
        k = {"s": 1, "m": 60, "h": 3600, "D": 86400}
        start, period = h.int("start", -10 ** 6, 10 ** 6), h.int("period", 1, 10 ** 4)
        n = int(h.int("n", 1, 3))
        kind = h.choice("kind", ["point", "average"])
        s64 = h.dt64_of(start * k[us]).astype("datetime64[{}]".format(us))
        p64 = h.td64_of(period * k[up])
        r = ctp(s64, p64, n, kind)
        expected = n if kind == "point" else n + 1
        h.check(len(r) == expected, "number of time points")
        for i in range(expected):
            h.eq(h.seconds(r[i]), start * k[us] + i * period * k[up], "time point {}".format(i))

    @case(cs, time=40, max_paths=400, conc=40, bounds="type texts of up to 7 characters near the two known words (case-insensitive)")
    def unknown_type(h):
        pt = h.mod("core.parameters").ParameterType
        ctp = h.mod("core.time").create_time_points
        s = h.string("type", "ponitaverg", 0, 7)
        bad = h.and_(h.not_(s == h.word("point")), h.not_(s == h.word("average")))
        if bad:
            h.raises(lambda: ctp(h.dt64_of(0), h.td64_of(1), 2, s), "ValueError", "unknown type")
        else:
            r = ctp(h.dt64_of(0), h.td64_of(1), 2, s)
            h.check(len(r) == (2 if s == h.word("point") else 3), "known type")

    return cs
