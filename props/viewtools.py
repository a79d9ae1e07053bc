"""Shared by the parameter view properties."""
from . import symunits as su

TREES = {
    "two leaves": [("a", "b"), ("a", "c")],
    "one leaf": [("a", "b")],
    "deep": [("a", "b", "d"), ("a", "c")],
    "chain": [("a", "b", "d")],
    "wide": [("a", "b"), ("a", "c"), ("a", "d")],
    "two levels": [("a", "b", "d"), ("a", "b", "e"), ("a", "c")],
    "namesakes": [("a", "b", "d"), ("a", "c", "d"), ("a", "a")],
}


def inner_nodes(tree):
    """The paths with children."""
    return sorted({leaf[:i] for leaf in tree for i in range(1, len(leaf))})


def below(tree, node):
    return [leaf for leaf in tree if leaf[:len(node)] == node]


def grid(h, points):
    return h.dts([h.dt64_of(p) for p in points])


def length(kind, points):
    return len(points) - 1 if kind == "average" else len(points)


def request(h, ps, kind, name, unit="K", points=(0, 100, 200, 300), **kw):
    if kind == "scalar":
        return ps.scalar(name, unit, **kw)
    if kind == "generic":
        return ps.generic(name, **kw)
    return ps.timeseries(name, unit, grid(h, points), timeseries_type=kind, **kw)


def get(view, kind):
    """Everything the view reads, as a list."""
    if kind in ("scalar", "generic"):
        return [view.value]
    return [x for x in view.values]


def put(h, view, kind, values):
    if kind in ("scalar", "generic"):
        view.value = values[0]
    else:
        view.values = h.floats(values)


KIND = {"SCALAR": "scalar", "GENERIC": "generic", "POINT_TIMESERIES": "point", "AVERAGE_TIMESERIES": "average"}


def state(h, ps, paths, points=(0, 100, 200, 300), views=()):
    """What is known about and can be read from every parameter: (type, unit, empty, reading); asks only for what was viewed already."""
    r = {}
    for p in paths:
        info = ps.info(p)
        if info is None:
            r[p] = None
            continue
        if info.parameter_type is None:
            r[p] = (None, info.unit, info.empty, ("err", "not viewed"))
            continue
        kind = KIND[info.parameter_type.name]
        r[p] = (kind, info.unit, info.empty, h.attempt(lambda: get(request(h, ps, kind, p, info.unit, points), kind)))
    for i, (v, kind) in enumerate(views):
        r[("view", str(i))] = (kind, v.unit, v.empty, h.attempt(lambda: get(v, kind)))
    return r


def same_state(h, a, b, label):
    for p in a:
        if a[p] is None or b[p] is None:
            h.check(a[p] is None and b[p] is None, "{}: existence of {}".format(label, "|".join(p)))
            continue
        h.check(a[p][0] == b[p][0], "{}: type of {}".format(label, "|".join(p)))
        h.check(a[p][1] == b[p][1], "{}: unit of {}".format(label, "|".join(p)))
        h.check(a[p][2] == b[p][2], "{}: emptiness of {}".format(label, "|".join(p)))
        x, y = a[p][3], b[p][3]
        h.check(x[0] == y[0], "{}: readability of {}".format(label, "|".join(p)))
        if x[0] == "ok":
            h.check(len(x[1]) == len(y[1]), "{}: length of {}".format(label, "|".join(p)))
            for u, v in zip(x[1], y[1]):
                h.eq(u, v, "{}: value of {}".format(label, "|".join(p)))
        else:
            h.check(x[1] == y[1], "{}: error of {}".format(label, "|".join(p)))


def scaled_units(h, n, lo=0.1, hi=10):
    """n units of one dimension with symbolic scales: (name, scale)"""
    b = su.base(h, "base")
    r = []
    for i in range(n):
        s = su.scale(h, "scale{}".format(i), lo, hi)
        r.append((su.define(h, "unit{}".format(i), s, {b: 1}), s))
    return r
