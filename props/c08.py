"""C08: converting period averages preserves means."""
from symex.runner import case

from .timegrid import average_knots, converter, curve_integral, dts, grid


def cases(tier):
    cs = []
    quick = tier == "quick"

    for n in ((3, 4) if quick else (3, 4, 5, 6)):
        for direction in ("from", "to"):
            @case(cs, name="identity_{}_{}".format(n, direction), time=90 if quick else 900, max_paths=100, conc=8, query_ms=15000,
                  bounds="{} periods with any boundaries (gaps up to 1e8 s), same target periods, values in +-100".format(n))
            def identity(h, n=n, direction=direction):
                xs = grid(h, "x", n + 1, -10 ** 9, 10 ** 9, 10 ** 8)
                ys = h.reals("y", n, -100, 100)
                cv = converter(h, dts(h, xs), dts(h, xs), "average")
                r = (cv.convert_from if direction == "from" else cv.convert_to)(h.floats(ys))
                h.eq(r, ys, "mean over a source period", tol=2e-5, scale=100.0)

        @case(cs, name="merge_{}".format(n), time=90 if quick else 900, max_paths=100, conc=8, query_ms=15000,
              bounds="{} periods with any boundaries, target merges a run of whole periods".format(n))
        def merge(h, n=n):
            xs = grid(h, "x", n + 1, -10 ** 9, 10 ** 9, 10 ** 8)
            ys = h.reals("y", n, -100, 100)
            i = int(h.int("first", 0, n - 2))
            j = int(h.int("last", i + 2, n))
            r = converter(h, dts(h, xs), dts(h, [xs[i], xs[j]]), "average").convert_from(h.floats(ys))
            h.check(len(r) == 1, "one value per target period")
            total = 0
            for k in range(i, j):
                total = total + ys[k] * (xs[k + 1] - xs[k])
            h.eq(r[0], total / (xs[j] - xs[i]), "duration-weighted mean", tol=2e-5, scale=100.0)

    for n in ((3,) if quick else (3, 4, 5)):
        @case(cs, name="split_{}".format(n), time=100 if quick else 900, max_paths=300, conc=8, query_ms=15000,
              bounds="{} periods of 1000 to 3000 s from any start, one period split at any second".format(n))
        def split(h, n=n):
            start = h.int("start", -10 ** 9, 10 ** 9)
            lens = [1000, 3000, 2000, 2400, 1500][:n]
            xs = [start]
            for l in lens:
                xs.append(xs[-1] + l)
            ys = h.reals("y", n, -100, 100)
            k = int(h.int("period", 0, n - 1))
            s = xs[k] + h.int("at", 1, lens[k] - 1)
            r = converter(h, dts(h, xs), dts(h, [xs[k], s, xs[k + 1]]), "average").convert_from(h.floats(ys))
            h.check(len(r) == 2, "one value per target period")
            h.eq((r[0] * (s - xs[k]) + r[1] * (xs[k + 1] - s)) / lens[k], ys[k], "parts add up to the period", tol=2e-5, scale=100.0)

    for n, lens in (((3, (1000, 3000, 2000)), (4, (2000, 1000, 1000, 3000))) if quick else
                    ((3, (1000, 3000, 2000)), (4, (2000, 1000, 1000, 3000)), (5, (86400, 43200, 1000, 7000, 86400)), (3, (31536000, 31536000, 31622400)))):
        @case(cs, name="curve_{}_{}".format(n, sum(lens)), time=100 if quick else 900, max_paths=600, conc=12, query_ms=15000,
              bounds="periods of {} s from any start, any target period inside with boundaries at any second".format(lens))
        def curve(h, n=n, lens=lens):
            start = h.int("start", -10 ** 9, 10 ** 9)
            xs = [start]
            for l in lens:
                xs.append(xs[-1] + l)
            ys = h.reals("y", n, -100, 100)
            t0 = start + h.int("a", 0, sum(lens) - 1)
            t1 = start + h.int("b", 1, sum(lens))
            h.assume(t0 < t1)
            r = converter(h, dts(h, xs), dts(h, [t0, t1]), "average").convert_from(h.floats(ys))
            kx, ky = average_knots(xs, ys)
            h.check(len(r) == 1, "one value per target period")
            h.eq(r[0], curve_integral(kx, ky, t0, t1) / (t1 - t0), "mean over the target period", tol=2e-5, scale=100.0)

    @case(cs, name="equal_count", time=100 if quick else 600, max_paths=600, conc=12, query_ms=15000,
          bounds="3 periods of 1000, 3000 and 2000 s from any start, converted to 3 periods with the same outer boundaries and any inner ones (40 s steps), in both directions")
    def equal_count(h):
        start = h.int("start", -10 ** 9, 10 ** 9)
        xs = [start, start + 1000, start + 4000, start + 6000]
        ys = h.reals("y", 3, -100, 100)
        a, b = h.int("a", 1, 149), h.int("b", 1, 149)
        h.assume(a < b)
        ts = [xs[0], start + 40 * a, start + 40 * b, xs[3]]
        if h.flag("backward"):
            r = converter(h, dts(h, ts), dts(h, xs), "average").convert_to(h.floats(ys))
        else:
            r = converter(h, dts(h, xs), dts(h, ts), "average").convert_from(h.floats(ys))
        kx, ky = average_knots(xs, ys)
        h.check(len(r) == 3, "one value per target period")
        for i in range(3):
            h.eq(r[i], curve_integral(kx, ky, ts[i], ts[i + 1]) / (ts[i + 1] - ts[i]), "mean over target period {}".format(i), tol=2e-5, scale=100.0)

    @case(cs, name="several_targets", time=60 if quick else 600, max_paths=300, conc=10, query_ms=10000,
          bounds="4 periods of 1000 s, 3 adjacent target periods starting at any second with lengths 700, 300, 1500 s")
    def several_targets(h):
        start = h.int("start", -10 ** 9, 10 ** 9)
        xs = [start + 1000 * i for i in range(5)]
        ys = h.reals("y", 4, -100, 100)
        a = start + h.int("a", 0, 1500)
        ts = [a, a + 700, a + 1000, a + 2500]
        r = converter(h, dts(h, xs), dts(h, ts), "average").convert_from(h.floats(ys))
        kx, ky = average_knots(xs, ys)
        h.check(len(r) == 3, "one value per target period")
        for i in range(3):
            h.eq(r[i], curve_integral(kx, ky, ts[i], ts[i + 1]) / (ts[i + 1] - ts[i]), "mean over target period {}".format(i), tol=2e-5, scale=100.0)

    @case(cs, name="linear_map", time=60, max_paths=100, conc=10, query_ms=10000, bounds="4 unequal periods, target with three periods, combination of two symbolic series")
    def linear_map(h):
        xs = [0, 1000, 4000, 6000, 7000]
        ts = [500, 1000, 4500, 7000]
        u, v = h.reals("u", 4, -100, 100), h.reals("v", 4, -100, 100)
        a, b = h.choice("ab", [(2, -3), (-1, 0.5)])
        cv = converter(h, dts(h, xs), dts(h, ts), "average")
        ru, rv = cv.convert_from(h.floats(u)), cv.convert_from(h.floats(v))
        rw = cv.convert_from(h.floats([a * p + b * q for p, q in zip(u, v)]))
        h.eq(rw, [a * p + b * q for p, q in zip(ru, rv)], "conversion is linear in the values", tol=2e-5, scale=1000.0)

    return cs
