"""C09: converting point timeseries interpolates linearly between its points."""
from symex.runner import case

from .timegrid import between, converter, dts, grid, straight


def cases(tier):
    cs = []
    sizes = (3, 4) if tier == "quick" else (3, 4, 5, 6)
    for n in sizes:
        for direction in ("from", "to"):
            @case(cs, name="symbolic_grid_{}_{}".format(n, direction), time=90 if tier == "quick" else 900, max_paths=600, conc=12, query_ms=8000,
                  bounds="{} source points at any strictly increasing seconds (gaps up to 1e9 s), 2 increasing target points inside, values in +-1000".format(n))
            def symbolic_grid(h, n=n, direction=direction):
                xs = grid(h, "x", n)
                ys = h.reals("y", n)
                t0 = h.int("t0", -10 ** 10, 2 * 10 ** 10)
                t1 = h.int("t1", -10 ** 10, 2 * 10 ** 10)
                h.assume(t0 >= xs[0])
                h.assume(t1 > t0)
                h.assume(t1 <= xs[-1])
                if direction == "to":
                    h.assume(xs[1] >= t0)  # otherwise the converter is refused (C10)
                if direction == "from":
                    r = converter(h, dts(h, xs), dts(h, [t0, t1]), "point").convert_from(h.floats(ys))
                else:
                    r = converter(h, dts(h, [t0, t1]), dts(h, xs), "point").convert_to(h.floats(ys))
                h.check(len(r) == 2, "one value per target point")
                for t, v in ((t0, r[0]), (t1, r[1])):
                    for i in range(n - 1):
                        if between(t, xs[i], xs[i + 1]):
                            h.eq(v, straight(xs[i], ys[i], xs[i + 1], ys[i + 1], t), "value on the line between its neighbours")
                            h.le(v, h.max([ys[i], ys[i + 1]]), "not above both neighbours")
                            h.le(h.min([ys[i], ys[i + 1]]), v, "not below both neighbours")

    for direction in ("from", "to"):
        @case(cs, name="equal_count_" + direction, time=90, max_paths=1000, conc=12, query_ms=8000,
              bounds="{0} source points at any strictly increasing seconds, as many increasing target points anywhere in the span (including its ends)".format(3 if tier == "quick" else 4))
        def equal_count(h, direction=direction):
            n = 3 if tier == "quick" else 4
            xs, ts = grid(h, "x", n), grid(h, "t", n)
            ys = h.reals("y", n)
            h.assume(ts[0] >= xs[0])
            h.assume(ts[-1] <= xs[-1])
            if direction == "from":
                r = converter(h, dts(h, xs), dts(h, ts), "point").convert_from(h.floats(ys))
            else:
                h.assume(xs[1] >= ts[0])  # otherwise the converter is refused (C10)
                r = converter(h, dts(h, ts), dts(h, xs), "point").convert_to(h.floats(ys))
            h.check(len(r) == n, "one value per target point")
            for t, v in zip(ts, r):
                for i in range(n - 1):
                    if between(t, xs[i], xs[i + 1]):
                        h.eq(v, straight(xs[i], ys[i], xs[i + 1], ys[i + 1], t), "value on the line between its neighbours")

    @case(cs, name="source_points", time=60, max_paths=300, conc=10, query_ms=8000,
          bounds="3 to 5 source points at any strictly increasing seconds; target = the same points (possibly skipping some)")
    def source_points(h):
        n = int(h.int("n", 3, 5))
        xs = grid(h, "x", n)
        ys = h.reals("y", n)
        skip = int(h.int("skip", 0, n))  # n: none
        keep = [i for i in range(n) if i != skip]
        for mode in ("none", "constant", "linear"):
            r = converter(h, dts(h, xs), dts(h, [xs[i] for i in keep]), "point", mode).convert_from(h.floats(ys))
            h.eq(r, [ys[i] for i in keep], "value at a source point ({})".format(mode))

    @case(cs, name="one_target", time=40, max_paths=100, conc=10, bounds="3 source points, one single target point inside")
    def one_target(h):
        xs = grid(h, "x", 3)
        ys = h.reals("y", 3)
        t = h.int("t", -10 ** 10, 2 * 10 ** 10)
        h.assume(t >= xs[0])
        h.assume(t <= xs[-1])
        r = converter(h, dts(h, xs), dts(h, [t]), "point").convert_from(h.floats(ys))
        h.check(len(r) == 1, "one value")
        for i in range(2):
            if between(t, xs[i], xs[i + 1]):
                h.eq(r[0], straight(xs[i], ys[i], xs[i + 1], ys[i + 1], t), "value on the line")

    @case(cs, name="calendar_grid", time=60, max_paths=200, conc=10,
          bounds="yearly and monthly grids of 4 points in 1600, 1970 and 2100, any target second inside, values in +-1000, result independent of the datetime unit")
    def calendar_grid(h):
        import numpy as np

        y0 = h.choice("year", [1600, 1969, 2100])
        step = h.choice("step", ["Y", "M"])
        pts = [np.datetime64("{}-01-01".format(y0)).astype("datetime64[{}]".format(step)) + i for i in range(4)]
        xs = [int(p.astype("datetime64[s]").astype(np.int64)) for p in pts]
        ys = h.reals("y", 4)
        t = h.int("t", xs[0], xs[-1] - 1)
        r = converter(h, dts(h, xs), dts(h, [t, t + 1]), "point").convert_from(h.floats(ys))
        for k in (0, 1):
            for i in range(3):
                if between(t + k, xs[i], xs[i + 1]):
                    h.eq(r[k], straight(xs[i], ys[i], xs[i + 1], ys[i + 1], t + k), "value on the line")

    @case(cs, name="linear_map", time=60, max_paths=200, conc=10, query_ms=8000,
          bounds="4 points of any spacing, conversion of a*u+b*v with a, b constants")
    def linear_map(h):
        xs = grid(h, "x", 4)
        u, v = h.reals("u", 4), h.reals("v", 4)
        a, b = h.choice("ab", [(2, -3), (-1, 0.5)])
        t = h.int("t", -10 ** 10, 2 * 10 ** 10)
        h.assume(t >= xs[0])
        h.assume(t < xs[-1])
        cv = converter(h, dts(h, xs), dts(h, [t, xs[-1]]), "point")
        ru, rv = cv.convert_from(h.floats(u)), cv.convert_from(h.floats(v))
        rw = cv.convert_from(h.floats([a * p + b * q for p, q in zip(u, v)]))
        for i in range(2):
            h.eq(rw[i], a * ru[i] + b * rv[i], "conversion is linear in the values", scale=1000.0)

    return cs
