"""C04: Every view shows the latest write, converted to its own unit and times."""
from symex.runner import case

from . import timegrid as tg
from . import viewtools as vt

POINTS = (0, 100, 200, 300)
TOL = dict(tol=1e-5, scale=10000.0)


class Model:
    """Independent statement of what views show: one stored array (in the unit of scale 1) and pending writes of locked views."""

    def __init__(self, n, scales):
        self.n, self.scales = n, scales
        self.stored = None
        self.pending = {}
        self.locked = set()

    def shown(self, k):
        if k in self.pending:
            return self.pending[k]
        if self.stored is None:
            return None
        return [x / self.scales[k] for x in self.stored]

    def write(self, k, values):
        if k in self.locked:
            self.pending[k] = values
        else:
            self.stored = [v * self.scales[k] for v in values]

    def unlock(self, k):
        self.locked.discard(k)
        if k in self.pending:
            self.write(k, self.pending.pop(k))


def write(h, view, kind, old, name, how):
    n = len(old) if old is not None else vt.length(kind, POINTS)
    new = h.reals(name, n)
    if how == "whole":
        arr = h.floats(new)
        view.values = arr
        arr[0] = 12345.0  # the array handed in is not kept
        return new
    if how == "item":
        view.values[1] = new[1]
        return [old[0], new[1]] + list(old[2:])
    if how == "last":
        view.values[-1] = new[1]
        return list(old[:-1]) + [new[1]]
    if how == "slice":
        view.values[1:] = h.floats(new[1:])
        return [old[0]] + list(new[1:])
    if how == "part":
        part = view.values[:2]
        part[1] = new[1]
        return [old[0], new[1]] + list(old[2:])
    if how == "inplace":
        view.values += h.floats(new)
        return [a + b for a, b in zip(old, new)]
    if how == "times":
        view.values *= new[0]
        return [a * new[0] for a in old]
    if how == "handle":
        handle = view.values
        handle -= h.floats(new)
        return [a - b for a, b in zip(old, new)]


def check(h, views, model, kind, label, handles=None, scale=10000.0):
    for k, v in enumerate(views):
        want = model.shown(k)
        if want is None:
            h.raises(lambda: v.values, "ParameterEmptyError", label + ": nothing was written")
            continue
        got = v.values
        h.check(len(got) == len(want) and v.length == len(want), label + ": length")
        h.eq([x for x in got], want, "{}: view {}".format(label, k), tol=1e-5, scale=scale)
        if handles is not None:
            t = handles.setdefault(k, got)
            copy = t + 0
            for i in range(len(want)):
                h.eq(copy[i], want[i], "{}: computing with the held timeseries {}".format(label, k), tol=1e-5, scale=scale)
                h.eq(t[i], want[i], "{}: item of the held timeseries {}".format(label, k), tol=1e-5, scale=scale)
            copy[0] = 54321.0  # what was computed is not stored


def cases(tier):
    cs = []
    quick = tier == "quick"
    nv = 2 if quick else 3
    writes = ["whole", "item", "slice", "part", "inplace", "handle"] if quick else ["whole", "item", "last", "slice", "part", "inplace", "times", "handle"]

    @case(cs, name="scalar_history", time=200, max_paths=4000, conc=20, query_ms=8000,
          bounds="all sequences of {} writes through {} scalar views with any unit scales, any values; all views read or not after each".format(3 if quick else 4, nv + 1))
    def scalar_history(h):
        units = vt.scaled_units(h, nv + 1)
        ps = h.mod("core.parameterset").ParameterSet()
        views = [ps.scalar("p", u) for u, s in units]
        if h.flag("second_set"):
            other = h.mod("core.parameterset").ParameterSet()
            other.scalar("p", units[0][0]).value = 1.0
        stored = None
        for i in range(3 if quick else 4):
            k = h.index("view{}".format(i), nv + 1)
            v = h.real("v{}".format(i), -1000, 1000)
            views[k].value = v
            h.eq(views[k].value, v, "read back", scale=1000.0)
            stored = v * units[k][1]
            if h.flag("read{}".format(i)):
                for (u, s), view in zip(units, views):
                    h.eq(view.value, stored / s, "held view", scale=1000.0)
        for (u, s), view in zip(units, views):
            h.check(view.unit == u and not view.empty, "unit of the view")
            h.eq(view.value, stored / s, "held view", scale=1000.0)
            h.eq(ps.scalar("p", u).value, stored / s, "new view", scale=1000.0)

    @case(cs, name="temperatures", time=60, max_paths=200, conc=20, bounds="scalar and timeseries in degC, degF and K, any values, two writes through any of the views")
    def temperatures(h):
        kind = h.choice("kind", ["scalar", "point"])
        ps = h.mod("core.parameterset").ParameterSet()
        units = ["degC", "K", "degF"]
        to_k = {"K": lambda x: x, "degC": lambda x: x + 273.15, "degF": lambda x: (x + 459.67) * 5 / 9}
        from_k = {"K": lambda x: x, "degC": lambda x: x - 273.15, "degF": lambda x: x * 9 / 5 - 459.67}
        n = 1 if kind == "scalar" else 4
        views = [vt.request(h, ps, kind, ("t",), u, POINTS) for u in units]
        for i in range(2):
            k = h.index("view{}".format(i), 3)
            v = h.reals("v{}".format(i), n)
            vt.put(h, views[k], kind, v)
            for u, view in zip(units, views):
                h.eq(vt.get(view, kind), [from_k[u](to_k[units[k]](x)) for x in v], "view in " + u, scale=1000.0, tol=1e-6)

    @case(cs, name="generic_history", time=100, max_paths=3000, conc=20, bounds="3 writes through two generic views, any numbers")
    def generic_history(h):
        ps = h.mod("core.parameterset").ParameterSet()
        views = [ps.generic("g"), ps.generic(("g",))]
        for v in views:
            h.raises(lambda: v.value, "ParameterEmptyError", "nothing was written")
        for i in range(3):
            x = h.choice("x{}".format(i), [h.real("r{}".format(i), -10, 10), None, "text", True])
            views[h.index("view{}".format(i), 2)].value = x
            for v in views + [ps.generic("g")]:
                if x is None or isinstance(x, (str, bool)):
                    h.check(v.value == x and type(v.value) is type(x), "latest value")
                else:
                    h.eq(v.value, x, "latest value")

    for kind in ("point", "average"):
        nops = (2 if kind == "point" else 1) if quick else (3 if kind == "point" else 2)

        @case(cs, name="history_" + kind, time=250 if quick else 1200, max_paths=4000 if quick else 40000, conc=20, query_ms=8000,
              bounds="a first write and all sequences of {} writes ({}) through {} views with any unit scales, any values; views and held timeseries read or not before each".format(nops, ", ".join(writes), nv))
        def history(h, kind=kind, nops=nops):
            units = vt.scaled_units(h, nv)
            ps = h.mod("core.parameterset").ParameterSet()
            views = [vt.request(h, ps, kind, ("p",), u, POINTS) for u, s in units]
            n = vt.length(kind, POINTS)
            # the first request defines the unit of the parameter
            model = Model(n, [s / units[0][1] for u, s in units])
            handles = {}
            k = h.index("first", nv)
            v = h.reals("first.v", n)
            vt.put(h, views[k], kind, v)
            model.write(k, v)
            for i in range(nops):
                if h.flag("read{}".format(i)):
                    check(h, views, model, kind, "in between", handles)
                k = h.index("view{}".format(i), nv)
                how = h.choice("how{}".format(i), writes)
                model.write(k, write(h, views[k], kind, model.shown(k), "w{}".format(i), how))
                h.eq([x for x in views[k].values], model.shown(k), "read back", **TOL)
            check(h, views, model, kind, "at the end", handles)
            new = [vt.request(h, ps, kind, ("p",), u, POINTS) for u, s in units]
            check(h, new, model, kind, "new views")

    @case(cs, name="locking", time=250 if quick else 1200, max_paths=3000 if quick else 40000, conc=20, query_ms=8000,
          bounds="lock one of two views (written to before or not), {} writes through it, reads of both in between, unlock, one further write through either; any values and unit scales".format(2))
    def locking(h):
        kind = "point"
        units = vt.scaled_units(h, 2)
        ps = h.mod("core.parameterset").ParameterSet()
        views = [vt.request(h, ps, kind, ("p",), u, POINTS) for u, s in units]
        n = vt.length(kind, POINTS)
        model = Model(n, [s / units[0][1] for u, s in units])
        handles = {}
        filled = h.flag("filled")
        if filled:
            k = h.index("first", 2)
            v = h.reals("first.v", n)
            vt.put(h, views[k], kind, v)
            model.write(k, v)
            if h.flag("read"):
                check(h, views, model, kind, "before locking", handles)
        k = h.index("locked", 2)
        views[k].lock()
        model.locked.add(k)
        lw = ["whole", "item", "part"] if quick else writes
        for i in range(h.index("writes", 3)):
            if model.shown(k) is None:
                how = "whole"
            else:
                how = h.choice("how{}".format(i), lw)
            model.write(k, write(h, views[k], kind, model.shown(k), "w{}".format(i), how))
            if i == 0 or h.flag("read{}".format(i)):
                check(h, views, model, kind, "while locked", handles)
        views[k].unlock()
        model.unlock(k)
        check(h, views, model, kind, "after unlocking", handles)
        h.check(bool(ps.info("p").empty) == (model.stored is None), "unlocking without writes writes nothing")
        if h.flag("again"):
            views[k].unlock()
            check(h, views, model, kind, "after unlocking twice", handles)
        j = h.index("last", 2)
        v = h.reals("last.v", n)
        vt.put(h, views[j], kind, v)
        model.write(j, v)
        check(h, views, model, kind, "unlocked", handles)

    @case(cs, name="lock_without_write", time=60, max_paths=200, conc=20, bounds="locking and unlocking a view (read or not) of other times or unit without writing; another view writes meanwhile or not")
    def lock_without_write(h):
        kind = h.choice("kind", ["point", "average"])
        ps = h.mod("core.parameterset").ParameterSet()
        n = vt.length(kind, POINTS)
        wide = vt.request(h, ps, kind, ("p",), "kg", POINTS)
        v = h.reals("v", n)
        vt.put(h, wide, kind, v)
        other = vt.request(h, ps, kind, ("p",), "g", POINTS if h.flag("same_times") else (0, 90, 180, 300))
        if h.flag("read"):
            vt.get(other, kind)
        version = wide.version
        other.lock()
        if h.flag("meanwhile"):
            v = h.reals("w", n)
            vt.put(h, wide, kind, v)
            version = wide.version
        other.unlock()
        h.eq(vt.get(wide, kind), v, "unlocking without writes changes nothing", **TOL)
        h.check(wide.version == version, "no write was made")

    @case(cs, name="integers", time=60, max_paths=200, conc=20, bounds="integer values set first, then any values by any kind of write through the same or another view")
    def integers(h):
        kind = h.choice("kind", ["point", "average"])
        ps = h.mod("core.parameterset").ParameterSet()
        n = vt.length(kind, POINTS)
        views = [vt.request(h, ps, kind, ("p",), "kg", POINTS), vt.request(h, ps, kind, ("p",), "g", POINTS)]
        model = Model(n, [1.0, 0.001])
        ints = [h.int("i{}".format(i), -100, 100) for i in range(n)]
        k = h.index("first", 2)
        views[k].values = h.ints(ints)
        model.write(k, ints)
        handles = {}
        if h.flag("read"):
            check(h, views, model, kind, "integers", handles, 1e6)
        k = h.index("view", 2)
        how = h.choice("how", ["whole", "item", "slice", "part"])
        model.write(k, write(h, views[k], kind, model.shown(k), "w", how))
        check(h, views, model, kind, "any values", handles, 1e6)

    @case(cs, name="other_times", time=120, max_paths=600, conc=20, query_ms=8000, bounds="a point timeseries of 3 values at any increasing times; a view with 3 other times inside reads each of two writes; any values")
    def other_times(h):
        xs = tg.grid(h, "x", 3, 0, 10 ** 9, 10 ** 8)
        ts = tg.grid(h, "t", 3, 0, 10 ** 9, 10 ** 8)
        h.assume(ts[0] >= xs[0])
        h.assume(ts[2] <= xs[2])
        ps = h.mod("core.parameterset").ParameterSet()
        times = tg.dts(h, xs)
        a = ps.timeseries("p", "kg", times)
        target = tg.dts(h, ts)
        b = ps.timeseries("p", "g", target)
        # arrays handed in are not kept
        times[1] = times[0]
        target[1] = target[0]
        for i in range(2):
            ys = h.reals("y{}".format(i), 3)
            a.values = h.floats(ys)
            if i == 1 or h.flag("read"):
                got = [v for v in b.values]
                for j in range(3):
                    h.eq(got[j], 1000 * tg.point_curve(xs, ys, ts[j]), "interpolated to the view's times", tol=1e-6, scale=1e6)
                h.eq([v for v in a.values], ys, "reading does not change the parameter", scale=1000.0)

    return cs
