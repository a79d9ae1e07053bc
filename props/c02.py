"""C02: Parent parameters read as the sum of their leaves, always up to date."""
from symex.runner import case

from . import viewtools as vt


def total(h, xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def cases(tier):
    cs = []
    quick = tier == "quick"
    nops = 3 if quick else 4

    def write(h, view, kind, old, name, how):
        """Change a leaf; returns the new values in the view's unit."""
        n = len(old)
        new = h.reals(name, n)
        if how == "whole":
            vt.put(h, view, kind, new)
            return new
        if how == "item":
            view.values[1] = new[0]
            return [old[0], new[0]] + list(old[2:])
        if how == "slice":
            view.values[1:] = h.floats(new[1:])
            return [old[0]] + list(new[1:])
        if how == "inplace":
            view.values += h.floats(new)
            return [a + b for a, b in zip(old, new)]

    for trees, writes in [(["deep", "wide", "two levels"], nops), (["namesakes", "chain", "one leaf"], 1)] if quick else [(list(vt.TREES), nops)]:
      @case(cs, name="scalars_{}".format(writes), time=250, max_paths=4000 if quick else 100000, conc=20, query_ms=8000,
            bounds="trees {}; any leaf values and unit scales of leaves and parents; {} leaf writes in any order, parent views got before and after, read or not in between".format(", ".join(trees), writes))
      def scalars(h, trees=trees, nops=writes):
        tree = vt.TREES[h.choice("tree", trees)]
        units = vt.scaled_units(h, 3)
        ps = h.mod("core.parameterset").ParameterSet()
        leaf = {}
        value = {}
        for i, p in enumerate(tree):
            u, s = units[i % 2]
            leaf[p] = (ps.scalar(p, u), s)
        early = {n: ps.scalar(n, units[2][0]) for n in vt.inner_nodes(tree)}
        for n in early:
            h.raises(lambda: early[n].value, "ParameterEmptyError", "leaves are empty")
        for i, p in enumerate(tree):
            value[p] = h.real("v{}".format(i), -1000, 1000)
            leaf[p][0].value = value[p]
            if i + 1 < len(tree):
                h.raises(lambda: early[("a",)].value, "ParameterEmptyError", "one leaf is empty")

        def read():
            for n in early:
                want = total(h, [value[p] * leaf[p][1] for p in vt.below(tree, n)]) / units[2][1]
                h.eq(early[n].value, want, "held view of {}".format("|".join(n)), scale=1000.0)
                h.eq(ps.scalar(n, units[2][0]).value, want, "new view of {}".format("|".join(n)), scale=1000.0)
            for i, p in enumerate(tree):
                h.eq(leaf[p][0].value, value[p], "reading changes nothing", scale=1.0)
                h.eq(ps.scalar(p, units[2][0]).value, value[p] * leaf[p][1] / units[2][1], "leaf in the parent's unit", scale=1000.0)

        for i in range(nops):
            if h.flag("read{}".format(i)):
                read()
            p = tree[h.index("leaf{}".format(i), len(tree))]
            value[p] = h.real("w{}".format(i), -1000, 1000)
            leaf[p][0].value = value[p]
        read()

    @case(cs, name="offset_units", time=60, max_paths=100, conc=10, bounds="two temperature leaves in degC and degF, parent read in K, degC and degF")
    def offset_units(h):
        ps = h.mod("core.parameterset").ParameterSet()
        a, b = ps.scalar("t|x", "degC"), ps.scalar("t|y", "degF")
        va, vb = h.reals("v", 2)
        a.value, b.value = va, vb
        unit = h.choice("unit", ["K", "degC", "degF"])
        ka, kb = va + 273.15, (vb + 459.67) * 5 / 9
        f = {"K": lambda k: k, "degC": lambda k: k - 273.15, "degF": lambda k: k * 9 / 5 - 459.67}[unit]
        h.eq(ps.scalar("t", unit).value, f(ka) + f(kb), "sum of the leaves read in the unit", scale=1000.0)

    for kind in ("point", "average"):
        points = (0, 100, 200, 300)
        other = (50, 100, 220, 290) if kind == "point" else (0, 150, 200, 300)

        @case(cs, name="same_times_" + kind, time=250, max_paths=4000, conc=20, query_ms=8000,
              bounds="{} timeseries of {} values; any values and unit scales; {} writes (whole, item, slice, in place) to the leaves of small trees in any order; views held or new".format(kind, vt.length(kind, points), (2 if kind == "point" else 1) if quick else 3))
        def same_times(h, kind=kind, points=points):
            tree = vt.TREES[h.choice("tree", ["deep"] if quick else ["one leaf", "two leaves", "deep", "chain"])]
            units = vt.scaled_units(h, 2)
            ps = h.mod("core.parameterset").ParameterSet()
            n = vt.length(kind, points)
            leaf, value = {}, {}
            for i, p in enumerate(tree):
                leaf[p] = vt.request(h, ps, kind, p, units[0][0], points)
                value[p] = h.reals("v{}".format(i), n)
                vt.put(h, leaf[p], kind, value[p])
            held = {x: vt.request(h, ps, kind, x, units[1][0], points) for x in vt.inner_nodes(tree)}
            handles = {}
            factor = units[0][1] / units[1][1]

            def read():
                for x in held:
                    want = [total(h, [value[p][i] for p in vt.below(tree, x)]) * factor for i in range(n)]
                    h.eq(vt.get(held[x], kind), want, "held view of {}".format("|".join(x)), scale=10000.0, tol=1e-5)
                    new = vt.request(h, ps, kind, x, units[1][0], points)
                    h.eq(vt.get(new, kind), want, "new view of {}".format("|".join(x)), scale=10000.0, tol=1e-5)
                    handle = handles.setdefault(x, held[x].values)
                    h.eq([v for v in handle], want, "held timeseries of {}".format("|".join(x)), scale=10000.0, tol=1e-5)
                    for i in range(n):
                        h.eq((handle + 0)[i], want[i], "computing with the held timeseries of {}".format("|".join(x)), scale=10000.0, tol=1e-5)
                for p in tree:
                    h.eq(vt.get(leaf[p], kind), value[p], "reading changes nothing", scale=1000.0, tol=1e-5)

            for i in range((2 if kind == "point" else 1) if quick else 3):
                if h.flag("read{}".format(i)):
                    read()
                p = tree[h.index("leaf{}".format(i), len(tree))]
                how = h.choice("how{}".format(i), ["whole", "item", "slice", "inplace"])
                value[p] = write(h, leaf[p], kind, value[p], "w{}".format(i), how)
            read()

        @case(cs, name="shapes_" + kind, time=200, max_paths=400, conc=20, query_ms=8000,
              bounds="{} timeseries on trees {}, any values, views held and new, one whole write to any leaf".format(kind, ", ".join(vt.TREES)))
        def shapes(h, kind=kind, points=points):
            tree = vt.TREES[h.choice("tree", list(vt.TREES))]
            ps = h.mod("core.parameterset").ParameterSet()
            n = vt.length(kind, points)
            leaf, value = {}, {}
            for i, p in enumerate(tree):
                leaf[p] = vt.request(h, ps, kind, p, "g", points)
                value[p] = h.reals("v{}".format(i), n)
                vt.put(h, leaf[p], kind, value[p])
            held = {x: vt.request(h, ps, kind, x, "kg", points) for x in vt.inner_nodes(tree)}
            if h.flag("read"):
                for x in held:
                    vt.get(held[x], kind)
            p = tree[h.index("leaf", len(tree))]
            value[p] = h.reals("w", n)
            vt.put(h, leaf[p], kind, value[p])
            for x in held:
                want = [total(h, [value[p][i] for p in vt.below(tree, x)]) / 1000 for i in range(n)]
                h.eq(vt.get(held[x], kind), want, "held view of {}".format("|".join(x)), scale=10.0, tol=1e-5)
                h.eq(vt.get(vt.request(h, ps, kind, x, "kg", points), kind), want, "new view of {}".format("|".join(x)), scale=10.0, tol=1e-5)

        @case(cs, name="other_times_" + kind, time=200, max_paths=400, conc=20, query_ms=8000,
              bounds="{} timeseries read on other times than the leaves' (two leaves with different times), any values, one further write".format(kind))
        def other_times(h, kind=kind, points=points, other=other):
            ps = h.mod("core.parameterset").ParameterSet()
            grids = [points, tuple(p // 2 * 2 + (0 if p in (0, 300) else 10) for p in points)]
            tree = [("a", "b"), ("a", "c", "d")]
            units = ["kg", "g"]
            leaf = [vt.request(h, ps, kind, p, u, g) for p, u, g in zip(tree, units, grids)]
            n = vt.length(kind, points)
            for i, v in enumerate(leaf):
                vt.put(h, v, kind, h.reals("v{}".format(i), n))
            held = vt.request(h, ps, kind, ("a",), "t", other)
            if h.flag("read"):
                vt.get(held, kind)
            k = h.index("leaf", 2)
            vt.put(h, leaf[k], kind, h.reals("w", n))
            parts = [vt.get(vt.request(h, ps, kind, p, "t", other), kind) for p in tree]
            want = [a + b for a, b in zip(*parts)]
            h.eq(vt.get(held, kind), want, "held view", tol=1e-5, scale=10.0)
            h.eq(vt.get(vt.request(h, ps, kind, ("a",), "t", other), kind), want, "new view", tol=1e-5, scale=10.0)

    @case(cs, name="late_leaves", time=60, max_paths=400, conc=20, bounds="a further leaf at any place of a tree below a parameter already viewed, scalars and point timeseries")
    def late_leaves(h):
        kind = h.choice("kind", ["scalar", "point", "average"])
        ps = h.mod("core.parameterset").ParameterSet()
        n = vt.length(kind, (0, 100, 200, 300)) if kind != "scalar" else 1
        tree = [("a", "b", "d"), ("a", "c")]
        total_ = [0] * n
        for i, p in enumerate(tree):
            vs = h.reals("v{}".format(i), n)
            vt.put(h, vt.request(h, ps, kind, p), kind, vs)
            total_ = [a + b for a, b in zip(total_, vs)]
        top = h.choice("viewed", [("a",), ("a", "b")])
        held = vt.request(h, ps, kind, top)
        if h.flag("read"):
            vt.get(held, kind)
        new = h.choice("new", [("a", "b", "e"), ("a", "f"), ("a", "b", "e", "g"), ("a", "c", "h"), ("a", "b", "d", "i")])
        ws = h.reals("w", n)
        r = h.attempt(lambda: vt.put(h, vt.request(h, ps, kind, new), kind, ws))
        leaves = tree + ([new] if r[0] == "ok" else [])
        for x in (("a",), ("a", "b")):
            parts = [vt.get(vt.request(h, ps, kind, p), kind) for p in vt.below(leaves, x)]
            want = [total(h, list(ps_)) for ps_ in zip(*parts)]
            h.eq(vt.get(vt.request(h, ps, kind, x), kind), want, "new view of {}".format("|".join(x)), scale=1000.0)
            if x == top:
                h.eq(vt.get(held, kind), want, "held view of {}".format("|".join(x)), scale=1000.0)

    return cs
