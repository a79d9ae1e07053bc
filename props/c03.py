"""C03: Parameter tree stays consistent; refused operations change nothing."""
from symex.runner import case

from . import viewtools as vt

PATHS = [("a",), ("a", "b"), ("a", "b", "c"), ("a", "d")]
POINTS = (0, 100, 200, 300)
UNIT = {"scalar": "K", "generic": None, "point": "K", "average": "K"}


class Tree:
    """The documented rules, stated anew."""

    def __init__(self):
        self.nodes = {}  # path -> {"kind", "viewed", "values"}

    def children(self, p):
        return [q for q in self.nodes if len(q) > len(p) and q[:len(p)] == p]

    def leaves(self, p):
        c = self.children(p)
        return [q for q in c if not self.children(q)] if c else [p]

    def request(self, p, kind):
        """The error documented for a view request or None; updates the tree."""
        if p not in self.nodes:
            for i in range(1, len(p)):
                q = self.nodes.get(p[:i])
                if q is not None and p[:i + 1] not in self.nodes:
                    if q["values"] is not None:
                        return "ParameterWrittenError"
                    if q["viewed"]:
                        return "ParameterReadError"
        else:
            n = self.nodes[p]
            if n["kind"] not in (None, kind):
                return "ParameterTypeError"
            if n["kind"] is None and self.children(p):
                if kind == "generic":
                    return "ParameterAggregationError"
                if any(self.nodes[q]["kind"] not in (None, kind) for q in self.children(p)):
                    return "ParameterTypeError"
        for i in range(1, len(p) + 1):
            self.nodes.setdefault(p[:i], dict(kind=None, viewed=False, values=None))
        self.nodes[p]["kind"] = kind
        for q in [p] + self.children(p):
            self.nodes[q]["viewed"] = True
        return None

    def readable(self, p):
        if any(self.nodes[q]["values"] is None for q in self.leaves(p)):
            return "ParameterEmptyError"
        return None


def check_readings(h, ps, tree, views, label):
    for p in PATHS:
        info = ps.info(p)
        n = tree.nodes.get(p)
        h.check((info is None) == (n is None), label + ": existence")
        if n is None or n["kind"] is None:
            continue
        h.check(vt.KIND[info.parameter_type.name] == n["kind"], label + ": type of the first request")
        h.check(bool(info.empty) == (n["values"] is None), label + ": emptiness")
        targets = [vt.request(h, ps, n["kind"], p, UNIT[n["kind"]], POINTS)] + [v for v, q in views if q == p]
        for v in targets:
            r = h.attempt(lambda: vt.get(v, n["kind"]))
            want = tree.readable(p)
            if want is not None:
                h.check(r == ("err", want), label + ": empty parameters cannot be read")
                continue
            h.check(r[0] == "ok", label + ": written parameters can be read")
            if r[0] == "ok":
                vals = [tree.nodes[q]["values"] for q in tree.leaves(p)]
                h.eq(r[1], [sum(x[1:], x[0]) for x in zip(*vals)], label + ": value", scale=1000.0)


def cases(tier):
    cs = []
    quick = tier == "quick"

    def history(h, kinds, paths, nreq, nops, check_between):
        ps = h.mod("core.parameterset").ParameterSet()
        tree = Tree()
        views = []
        for i in range(nreq):
            p = h.choice("path{}".format(i), paths)
            kind = h.choice("kind{}".format(i), kinds)
            want = tree.request(p, kind)
            r = h.attempt(lambda: vt.request(h, ps, kind, p, UNIT[kind], POINTS))
            h.check(r[0] == ("ok" if want is None else "err"), "view request granted or refused")
            if want is None and r[0] == "ok":
                views.append((r[1], p))
            elif r[0] == "err":
                h.check(r[1] == want, "documented error of a refused request")
            # what exists and its type, without touching anything not yet viewed
            for q in PATHS:
                info = ps.info(q)
                n = tree.nodes.get(q)
                h.check((info is None) == (n is None), "existence")
                if n is not None:
                    h.check((info.parameter_type is None) == (n["kind"] is None), "type known or not")
                    if n["kind"] is not None:
                        h.check(vt.KIND[info.parameter_type.name] == n["kind"], "type of the first request")
                    h.check(bool(info.empty) == (n["values"] is None), "emptiness")
            # interleave a write
            if views and i < nreq - 1 and h.flag("write{}".format(i)):
                operate(h, ps, tree, views, "early{}".format(i), ["whole"], check_between)
        for i in range(nops):
            if not views:
                break
            operate(h, ps, tree, views, "op{}".format(i), ["whole", "short", "long", "item", "inplace", "slice"], check_between)
        check_readings(h, ps, tree, views, "at the end")

    def operate(h, ps, tree, views, name, ops, check):
        v, p = views[h.index(name + ".view", len(views))]
        n = tree.nodes[p]
        kind = n["kind"]
        single = kind in ("scalar", "generic")
        op = h.choice(name, [o for o in ops if not single or o == "whole"])
        length = 1 if single else vt.length(kind, POINTS)
        parent = bool(tree.children(p))
        new = h.reals(name + ".v", length)

        def do():
            if op == "whole":
                vt.put(h, v, kind, new)
            elif op == "short":
                v.values = h.floats(new[:-1])
            elif op == "long":
                v.values = h.floats(new + [1.0])
            elif op == "item":
                v.values[1] = new[1]
            elif op == "slice":
                v.values[:2] = h.floats(new[:2])
            else:
                v.values += h.floats(new)

        r = h.attempt(do)
        need_read = op in ("item", "inplace", "slice")
        if need_read and tree.readable(p) is not None:
            want = "ParameterEmptyError"
        elif parent:
            want = "ParameterReadonlyError"
        elif op in ("short", "long"):
            want = "TimeseriesPointsValuesMismatchError"
        else:
            want = None
        h.check(r[0] == ("ok" if want is None else "err"), "write accepted or refused")
        if r[0] == "err":
            h.check(r[1] == want, "documented error of a refused write")
        elif want is None:
            old = n["values"]
            n["values"] = {"whole": lambda: new, "item": lambda: [old[0], new[1]] + old[2:], "slice": lambda: new[:2] + old[2:],
                           "inplace": lambda: [a + b for a, b in zip(old, new)]}[op]()
        if check:
            check_readings(h, ps, tree, views, "after an operation")

    @case(cs, name="requests", time=250, max_paths=8000, conc=20,
          bounds="all sequences of {} view requests of a, a|b, a|b|c, a|d with all types, optionally a write in between, and one write; any values".format(3))
    def requests(h):
        history(h, ["scalar", "generic"] if quick else ["scalar", "generic", "point", "average"], PATHS[:3] if quick else PATHS, 3, 1, False)

    for kind in ("scalar", "point", "average"):
        @case(cs, name="writes_" + kind, time=250, max_paths=4000, conc=20,
              bounds="all sequences of {} operations (whole, too short, too long, item, slice, in-place writes) on views of a small tree of {} parameters, any values".format(2 if quick else 3, kind))
        def writes(h, kind=kind):
            ps = h.mod("core.parameterset").ParameterSet()
            tree = Tree()
            views = []
            for p in [("a", "b"), ("a", "d"), ("a",)] if not quick else [("a", "b"), ("a",)]:
                h.check(tree.request(p, kind) is None, "harness")
                views.append((vt.request(h, ps, kind, p, UNIT[kind], POINTS), p))
            if h.flag("filled"):
                for v, p in views[:-1]:
                    vals = h.reals("|".join(p), 1 if kind == "scalar" else vt.length(kind, POINTS))
                    vt.put(h, v, kind, vals)
                    tree.nodes[p]["values"] = vals
            for i in range(2 if quick else 3):
                operate(h, ps, tree, views, "op{}".format(i), ["whole", "short", "long", "item", "inplace", "slice"], kind != "average")
            check_readings(h, ps, tree, views, "at the end")

    @case(cs, name="refused_units", time=100, max_paths=600, conc=20,
          bounds="requests with undefined units, units of another dimension, unknown timeseries types, as first or later request")
    def refused_units(h):
        ps = h.mod("core.parameterset").ParameterSet()
        kind = h.choice("kind", ["scalar", "point", "average"])
        first = h.flag("first")
        paths = [("a", "b"), ("a",)]
        views = []
        n = 1 if kind == "scalar" else vt.length(kind, POINTS)
        if not first:
            v = vt.request(h, ps, kind, ("a", "b"), "kg", POINTS)
            if h.flag("written"):
                vt.put(h, v, kind, h.reals("v", n))
            views.append((v, kind))
        before = vt.state(h, ps, paths, POINTS, views)
        bad = h.choice("bad", ["undefined", "dimension", "type"])
        if bad == "undefined":
            h.raises(lambda: vt.request(h, ps, kind, ("a", "b"), "nosuchunit", POINTS), "UndefinedUnitError", "undefined unit")
        elif bad == "dimension":
            h.assume(not first)
            h.raises(lambda: vt.request(h, ps, kind, ("a", "b"), "K", POINTS), "DimensionalityError", "unit of another dimension")
        else:
            h.raises(lambda: ps.timeseries(("a", "b"), "kg", vt.grid(h, POINTS), timeseries_type="nosuchtype"), "ValueError", "unknown type")
        vt.same_state(h, before, vt.state(h, ps, paths, POINTS, views), "after a refused request")
        v = vt.request(h, ps, kind, ("a", "b"), "kg", POINTS)
        new = h.reals("w", n)
        vt.put(h, v, kind, new)
        h.eq(vt.get(v, kind), new, "usable after a refused request", scale=1000.0)
        for w, k in views:
            h.eq(vt.get(w, kind), new, "earlier view usable after a refused request", scale=1000.0)

    @case(cs, name="refused_values", time=100, max_paths=600, conc=20,
          bounds="writes of text to scalars and of timeseries views that do not cover the parameter's times, before and after proper writes, any values")
    def refused_values(h):
        ps = h.mod("core.parameterset").ParameterSet()
        kind = h.choice("kind", ["scalar", "point", "average"])
        n = 1 if kind == "scalar" else vt.length(kind, POINTS)
        wide = vt.request(h, ps, kind, ("a",), "K", POINTS)
        narrow_points = (60, 150, 210, 240)
        narrow = vt.request(h, ps, kind, ("a",), "K", narrow_points)
        views = [(wide, kind), (narrow, kind)]
        if h.flag("written"):
            vt.put(h, wide, kind, h.reals("v", n))
            if h.flag("read"):
                vt.get(narrow, kind)
        before = vt.state(h, ps, [("a",)], POINTS, views if h.flag("reading") else views[:1])
        how = h.choice("how", ["whole", "item"])
        w = h.reals("w", n)

        def bad():
            if kind == "scalar":
                narrow.value = "text"
            elif how == "whole":
                narrow.values = h.floats(w)
            else:
                narrow.values[0] = w[0]

        want = {"scalar": ("TypeError", "ValueError", "DimensionalityError", "UFuncTypeError"), "point": ("InsufficientDataError", "ParameterEmptyError"), "average": ("InsufficientDataError", "ParameterEmptyError")}[kind]
        h.raises(bad, want, "refused write")
        after = vt.state(h, ps, [("a",)], POINTS, views if len(before) > 2 else views[:1])
        vt.same_state(h, before, after, "after a refused write")
        r = h.attempt(lambda: vt.get(narrow, kind))
        h.check(r[0] == ("ok" if not ps.info("a").empty else "err"), "refused data are not read back")
        if r[0] == "ok":
            h.eq(r[1], vt.get(vt.request(h, ps, kind, ("a",), "K", narrow_points), kind), "refused data are not read back", scale=1000.0)
        new = h.reals("x", n)
        vt.put(h, wide, kind, new)
        h.eq(vt.get(wide, kind), new, "usable after a refused write", scale=1000.0)

    return cs
