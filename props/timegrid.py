"""Shared by the timeseries conversion properties."""
import numpy as np


def converter(h, source, target, kind, extrapolation="none"):
    t = h.mod("core.time")
    pt = h.mod("core.parameters").ParameterType
    return t.TimeseriesConverter(source, target, pt.from_timeseries_type(kind), t.InterpolationType.LINEAR,
                                 t.ExtrapolationType.from_extrapolation_type(extrapolation))


def grid(h, name, n, lo=-10 ** 10, hi=10 ** 10, gap=10 ** 9):
    """n strictly increasing symbolic instants, as seconds."""
    xs = [h.int(name + "0", lo, hi)]
    for i in range(1, n):
        xs.append(xs[-1] + h.int("{}gap{}".format(name, i), 1, gap))
    return xs


def dts(h, secs):
    return h.dts([h.dt64_of(s) for s in secs])


def between(t, a, b):
    """a <= t <= b, forking"""
    if not a <= t:
        return False
    return bool(t <= b)


def straight(x0, y0, x1, y1, t):
    return y0 + (y1 - y0) * (t - x0) / (x1 - x0)


def point_curve(xs, ys, t):
    """Piecewise linear through the points; forks on where t lies (t inside)."""
    for i in range(len(xs) - 1):
        if i == len(xs) - 2 or bool(t <= xs[i + 1]):
            return straight(xs[i], ys[i], xs[i + 1], ys[i + 1], t)


def average_knots(bounds, values):
    """Corners of the mean-preserving curve: edges are means of neighbours, middles fix the period mean."""
    n = len(values)
    edge = [None] * (n + 1)
    for i in range(1, n):
        edge[i] = (values[i - 1] + values[i]) / 2
    edge[0] = 2 * values[0] - edge[1]
    edge[n] = 2 * values[n - 1] - edge[n - 1]
    xs, ys = [], []
    for i in range(n):
        xs += [bounds[i], (bounds[i] + bounds[i + 1]) / 2]
        # the period mean is (edge_i + 2 middle + edge_i+1) / 4
        ys += [edge[i], (4 * values[i] - edge[i] - edge[i + 1]) / 2]
    return xs + [bounds[n]], ys + [edge[n]]


def curve_integral(xs, ys, a, b):
    """Integral of the piecewise linear curve over [a, b] inside [xs[0], xs[-1]]."""
    total = 0
    for i in range(len(xs) - 1):
        if i > 0 and not bool(b > xs[i]):
            break
        if i < len(xs) - 2 and bool(a >= xs[i + 1]):
            continue
        lo = a if (i == 0 or bool(a >= xs[i])) else xs[i]
        hi = b if (i == len(xs) - 2 or bool(b <= xs[i + 1])) else xs[i + 1]
        mid = (lo + hi) / 2
        total = total + (hi - lo) * straight(xs[i], ys[i], xs[i + 1], ys[i + 1], mid)
    return total
