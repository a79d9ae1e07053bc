"""C10: extrapolation follows the chosen mode; impossible conversions are refused."""
from symex.runner import case

from .timegrid import average_knots, converter, curve_integral, dts, grid, point_curve, straight


def expected_point(h, xs, ys, t, mode):
    """Value at t, or None when the conversion must be refused."""
    if bool(t < xs[0]):
        return None if mode == "none" else ys[0] if mode == "constant" else straight(xs[0], ys[0], xs[1], ys[1], t)
    if bool(t > xs[-1]):
        return None if mode == "none" else ys[-1] if mode == "constant" else straight(xs[-2], ys[-2], xs[-1], ys[-1], t)
    return point_curve(xs, ys, t)


def cases(tier):
    cs = []
    quick = tier == "quick"
    for mode in ("none", "constant", "linear"):
        for direction in ("from", "to"):
            @case(cs, name="point_{}_{}".format(mode, direction), time=90 if quick else 600, max_paths=600, conc=15, query_ms=8000,
                  bounds="3 source points (thorough: 4) of any spacing, 2 target points anywhere (before, inside, after, straddling), extrapolation {}".format(mode))
            def point(h, mode=mode, direction=direction):
                n = 3 if quick else 4
                xs = grid(h, "x", n)
                ys = h.reals("y", n)
                t0 = h.int("t0", -2 * 10 ** 10, 2 * 10 ** 10)
                t1 = t0 + h.int("tgap", 1, 10 ** 10)
                source, target = ((xs, [t0, t1]) if direction == "from" else ([t0, t1], xs))
                make = lambda: converter(h, dts(h, source), dts(h, target), "point", mode)
                if bool(source[0] > target[1]):
                    h.raises(make, "InsufficientDataError", "source starts after the second target point")
                    return
                cv = make()
                call = cv.convert_from if direction == "from" else cv.convert_to
                exp = [expected_point(h, xs, ys, t, mode) for t in (t0, t1)]
                if exp[0] is None or exp[1] is None:
                    h.raises(lambda: call(h.floats(ys)), "InsufficientDataError", "extrapolation although switched off")
                    return
                h.eq(call(h.floats(ys)), exp, "converted values")

        @case(cs, name="average_" + mode, time=90 if quick else 600, max_paths=600, conc=15, query_ms=8000,
              bounds="3 source periods 1000 s to 3000 s long around any start, 1 target period anywhere at most 4000 s long, extrapolation {}".format(mode))
        def average(h, mode=mode):
            n = 3
            start = h.int("start", -10 ** 9, 10 ** 9)
            lens = [1000, 3000, 2000]
            xs = [start]
            for l in lens:
                xs.append(xs[-1] + l)
            ys = h.reals("y", n, -100, 100)
            d = h.int("target_start", -9000, 9000)
            t0 = start + d
            t1 = t0 + h.choice("target_length", [500, 4000])
            make = lambda: converter(h, dts(h, xs), dts(h, [t0, t1]), "average", mode)
            if bool(xs[0] > t1):
                h.raises(make, "InsufficientDataError", "source starts after the target period")
                return
            cv = make()
            outside = h.or_(t0 < xs[0], t1 > xs[-1])
            if mode == "none" and bool(outside):
                # the curve is not known there
                h.raises(lambda: cv.convert_from(h.floats(ys)), "InsufficientDataError", "extrapolation although switched off")
                return
            kx, ky = average_knots(xs, ys)
            total = 0
            if bool(t0 < xs[0]):
                hi = h.min([t1, xs[0]])
                total = total + (hi - t0) * (ys[0] if mode == "constant" else straight(kx[0], ky[0], kx[1], ky[1], (t0 + hi) / 2))
            if bool(t1 > xs[-1]):
                lo = h.max([t0, xs[-1]])
                total = total + (t1 - lo) * (ys[-1] if mode == "constant" else straight(kx[-2], ky[-2], kx[-1], ky[-1], (t1 + lo) / 2))
            lo, hi = h.max([t0, xs[0]]), h.min([t1, xs[-1]])
            if bool(lo < hi):
                total = total + curve_integral(kx, ky, lo, hi)
            # constant extrapolation of averages jumps at the ends: quadrature is only accurate to some digits there
            h.eq(cv.convert_from(h.floats(ys))[0], total / (t1 - t0), "mean over the target period", tol=5e-3 if mode == "constant" else 2e-5, scale=100.0)

    @case(cs, time=40, max_paths=100, conc=15, bounds="1 to 3 values of point and average series, all modes and directions, any values")
    def too_short(h):
        kind = h.choice("kind", ["point", "average"])
        mode = h.choice("mode", ["none", "constant", "linear"])
        n = int(h.int("n", 1, 3))
        direction = h.choice("direction", ["from", "to"])
        m = n + (1 if kind == "average" else 0)
        xs = [1000 * i for i in range(m)]
        if m < 2:
            xs2 = xs + [500]
        else:
            xs2 = xs
        cv = converter(h, dts(h, xs2), dts(h, xs2), kind, mode)
        if m < 2:
            cv._source = cv._source[:m]
            cv._target = cv._target[:m]
        ys = h.reals("y", n)
        f = cv.convert_from if direction == "from" else cv.convert_to
        if n < 3:
            h.raises(lambda: f(h.floats(ys)), "InsufficientDataError", "fewer than three values")
        else:
            h.eq(f(h.floats(ys)), ys, "identity")

    @case(cs, time=60, max_paths=300, conc=15, query_ms=8000,
          bounds="inside the span the three modes agree: 3 points of any spacing, 2 target points inside")
    def same_inside(h):
        xs = grid(h, "x", 3)
        ys = h.reals("y", 3)
        t0 = h.int("t0", -2 * 10 ** 10, 2 * 10 ** 10)
        t1 = t0 + h.int("tgap", 1, 10 ** 10)
        h.assume(t0 >= xs[0])
        h.assume(t1 <= xs[-1])
        r = [converter(h, dts(h, xs), dts(h, [t0, t1]), "point", m).convert_from(h.floats(ys)) for m in ("none", "constant", "linear")]
        h.eq(r[1], r[0], "constant equals none inside")
        h.eq(r[2], r[0], "linear equals none inside")

    @case(cs, time=30, max_paths=300, conc=20, bounds="all texts up to 8 letters near the three names")
    def mode_names(h):
        et = h.mod("core.time").ExtrapolationType
        s = h.string("mode", "noelicast", 4, 8)
        if s == h.word("none"):
            h.check(et.from_extrapolation_type(s) is et.NONE, "none")
        elif s == h.word("linear"):
            h.check(et.from_extrapolation_type(s) is et.LINEAR, "linear")
        elif s == h.word("constant"):
            h.check(et.from_extrapolation_type(s) is et.CONSTANT, "constant")
        else:
            h.raises(lambda: et.from_extrapolation_type(s), ["KeyError", "ValueError"], "unknown mode")

    return cs
