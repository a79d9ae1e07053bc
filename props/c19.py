"""C19: interpolating a data frame converts each timeseries by its own type."""
import numpy as np

from symex.runner import case

from . import calendar
from .frames import isnan, make, missing, read, same, same_meta
from .timegrid import converter, dts, grid, straight

DAY = 86400
# variable, unit, type they imply
KINDS = [("Surface Temperature", "K", "point"), ("Emissions|CO2", "GtC/yr", "average"), ("anything", "W/m^2", "average"),
         ("Emissions|CO2", "unheard of", "average"), ("stock", "unheard of", "point")]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def extended(h, ts):
        return ts + [ts[-1] + (ts[-1] - ts[-2])]

    def expected(h, kind, source, target, values, extrapolation):
        """The values of one timeseries by the converter."""
        avg = kind == "average"
        c = converter(h, dts(h, extended(h, source) if avg else source), dts(h, extended(h, target) if avg else target), kind, extrapolation)
        return list(c.convert_from(h.floats(values)))

    def check_result(h, df, orig, source, target, kinds, values, extrapolation, r):
        same(h, read(h, df, "original"), orig, "original")
        metas, secs, rows = read(h, r, "result")
        h.check(len(secs) == len(target), "number of target times")
        for a, b in zip(secs, target):
            h.eq(a, b, "target times")
        h.check(len(metas) == len(orig[0]), "number of timeseries")
        for i, (a, b) in enumerate(zip(metas, orig[0])):
            h.check(same_meta(a, dict(b, parameter_type=kinds[i])), "metadata of {}".format(i))
            for x, y in zip(rows[i], expected(h, kinds[i], source, target, values[i], extrapolation)):
                h.check(not isnan(x), "a value everywhere")
                h.eq(x, y, "values of {}".format(i), obs=kinds[i] == "point")

    SOURCE = [0, 365 * DAY, 731 * DAY + 5, 2000 * DAY]
    TARGETS = {"same": SOURCE, "inside": [100 * DAY, 800 * DAY, 801 * DAY], "beyond": [-50 * DAY, 400 * DAY, 2500 * DAY], "around": [-10 * DAY, 3000 * DAY]}

    for n in (1, 2) if quick else (1, 2, 3):
        @case(cs, name="types_{}".format(n), time=200 if quick else 900, max_paths=3000, conc=40,
              bounds="{} timeseries of any values at 4 uneven times, converted to 4 grids of times; each with type point, average or missing (None or NaN), or no types at all; variables and units of 5 kinds; extra metadata texts or numbers; extrapolation constant or linear".format(n))
        def types(h, n=n):
            kinds, variables, units, given = [], [], [], []
            column = h.flag("types given")
            for i in range(n):
                v, u, k = h.choice("kind{}".format(i), KINDS[:2] + (KINDS[2:] if n == 1 else []))
                g = h.choice("type{}".format(i), ["point", "average", None, float("nan")][:4 if n == 1 else 3]) if column else None
                variables.append(v + "|" + str(i))
                units.append(u)
                given.append(g)
                kinds.append(k if missing(g) else g)
            meta = {"variable": variables, "unit": units, "note": list(range(n)) if h.flag("numbers") else ["n"] * n}
            if column:
                meta["parameter_type"] = given
            values = [[h.real("v{}_{}".format(i, j)) for j in range(4)] for i in range(n)]
            df = make(h, values, SOURCE, meta)
            orig = read(h, df, "original")
            target = TARGETS[h.choice("target", sorted(TARGETS) if n < 3 else ["inside", "beyond"])]
            ext = h.choice("extrapolation", ["constant", "linear"])
            r = df.interpolate(dts(h, target), extrapolation_type=ext) if ext == "linear" or h.flag("explicit") else df.interpolate(dts(h, target))
            check_result(h, df, orig, SOURCE, target, kinds, values, ext, r)

    @case(cs, name="points", time=100 if quick else 600, max_paths=2000, conc=20,
          bounds="2 point timeseries of any values at 3 increasing times, any seconds, 2 increasing target times anywhere (constant extrapolation)")
    def points(h):
        xs, ts = grid(h, "x", 3), grid(h, "t", 2, gap=2 * 10 ** 9)
        values = [[h.real("v{}_{}".format(i, j)) for j in range(3)] for i in range(2)]
        h.assume(ts[1] >= xs[0])
        df = make(h, values, xs, {"variable": ["a", "b"], "parameter_type": ["point", "point"]})
        orig = read(h, df, "original")
        res = df.interpolate(dts(h, ts))
        same(h, read(h, df, "original"), orig, "original")
        metas, secs, rows = read(h, res, "result")
        for a, b in zip(secs, ts):
            h.eq(a, b, "target times")
        for i, vs in enumerate(values):
            for t, x in zip(ts, rows[i]):
                if bool(t <= xs[0]):
                    h.eq(x, vs[0], "before the first point")
                elif bool(t >= xs[2]):
                    h.eq(x, vs[2], "after the last point")
                elif bool(t <= xs[1]):
                    h.eq(x, straight(xs[0], vs[0], xs[1], vs[1], t), "first segment")
                else:
                    h.eq(x, straight(xs[1], vs[1], xs[2], vs[2], t), "second segment")

    for kind in ("average", "mixed"):
        @case(cs, name="grids_" + kind, time=100 if quick else 600, max_paths=2000, conc=20, query_ms=8000,
              bounds="{} of any values at 3 increasing times, any seconds, 2 increasing target times starting inside (constant extrapolation)".format("an average timeseries" if kind == "average" else "a point and an average timeseries"))
        def grids(h, kind=kind):
            xs, ts = grid(h, "x", 3), grid(h, "t", 2)
            h.assume(ts[0] >= xs[0])
            h.assume(ts[1] <= xs[2])
            kinds = ["average"] if kind == "average" else h.choice("order", [["average", "point"], ["point", "average"]])
            values = [[h.real("v{}_{}".format(i, j)) for j in range(3)] for i in range(len(kinds))]
            df = make(h, values, xs, {"variable": ["a", "b"][:len(kinds)], "parameter_type": kinds})
            orig = read(h, df, "original")
            r = df.interpolate(dts(h, ts))
            check_result(h, df, orig, xs, ts, kinds, values, "constant", r)

    @case(cs, name="no_extrapolation", time=60, max_paths=300, conc=20,
          bounds="a point or average timeseries of any values at 4 times, without extrapolation: target times inside, before or after")
    def no_extrapolation(h):
        kind = h.choice("kind", ["point", "average"])
        values = [[h.real("v{}".format(j)) for j in range(4)]]
        df = make(h, values, SOURCE, {"parameter_type": [kind]})
        orig = read(h, df, "original")
        target = TARGETS[h.choice("target", ["same", "inside", "beyond", "around"])]
        if target in (TARGETS["same"], TARGETS["inside"]):
            r = df.interpolate(dts(h, target), extrapolation_type="none")
            check_result(h, df, orig, SOURCE, target, [kind], values, "none", r)
        else:
            h.raises(lambda: df.interpolate(dts(h, target), extrapolation_type="none"), "InsufficientDataError", "outside")
            same(h, read(h, df, "original"), orig, "original")

    @case(cs, name="resample", time=100, max_paths=500, conc=20,
          bounds="a point and an average timeseries of any values at 3 times of the years 1650, 2000 or 3000; rules AS, A, MS, QS and 10AS-like defaults")
    def resample(h):
        y = h.choice("year", [1650, 2000, 3000])
        rule = h.choice("rule", [None, "AS", "MS", "A", "QS"])
        start = (y, 3, 1) if h.flag("inside") else (y, 1, 1)
        end = (y + 1, 2, 11) if rule in ("MS", "QS") else (y + 3, 1, 1)
        mid = (y, 12, 31)
        secs = [int(calendar.seconds(h, *d)) for d in (start, mid, end)]
        if rule in (None, "AS"):
            target = [(y + i, 1, 1) for i in range(4)]
        elif rule == "A":
            target = [(y - 1 + i, 12, 31) for i in range(5)]
        elif rule == "MS":
            target = [(y + (m - 1) // 12, (m - 1) % 12 + 1, 1) for m in range(start[1], 16)]
        else:
            target = [(y + (m - 1) // 12, (m - 1) % 12 + 1, 1) for m in range(1, 17, 3)]
        target = [int(calendar.seconds(h, *d)) for d in target]
        values = [[h.real("v{}_{}".format(i, j)) for j in range(3)] for i in range(2)]
        kinds = ["point", "average"]
        df = make(h, values, secs, {"variable": ["a", "b"], "parameter_type": kinds})
        orig = read(h, df, "original")
        r = df.resample() if rule is None else df.resample(rule)
        check_result(h, df, orig, secs, target, kinds, values, "constant", r)

    return cs
