"""C01: Hierarchical names address exactly one parameter."""
from symex.runner import case

ALPHABET = "ab|"


def split(h, text):
    """The levels of a path given as text."""
    levels, cur = [], h.word("")
    for c in text:
        if c == "|":
            levels.append(cur)
            cur = h.word("")
        else:
            cur = cur + c
    return levels + [cur]


def path(h, name, maxlevels=2, maxlen=2, textlen=4, minlevels=1, prefix=()):
    """(argument, levels)"""
    how = h.choice(name + ".spelling", ["text", "tuple", "list"])
    if how == "text" and not prefix:
        text = h.string(name, ALPHABET, max(minlevels, 1), textlen)
        return text, split(h, text)
    n = minlevels + h.index(name + ".levels", maxlevels - minlevels + 1)
    levels = list(prefix) + [h.string("{}.{}".format(name, i), ALPHABET if how != "text" else "ab", 0, maxlen) for i in range(n)]
    if how == "text":
        text = levels[0]
        for x in levels[1:]:
            text = text + "|" + x
        return text, levels
    return (tuple(levels) if how == "tuple" else levels), levels


def same(h, a, b):
    return h.and_(len(a) == len(b), *[x == y for x, y in zip(a, b)])


def starts(h, a, b):
    """Is a a proper prefix of b?"""
    return h.and_(len(a) < len(b), *[x == y for x, y in zip(a, b)])


def request(h, ps, kind, name, unit="K", **kw):
    if kind == "scalar":
        return ps.scalar(name, unit, **kw)
    if kind == "generic":
        return ps.generic(name, **kw)
    return ps.timeseries(name, unit, h.dts([h.dt64_of(i * 10) for i in range(4)]), timeseries_type=kind, **kw)


def put(h, view, kind):
    if kind in ("scalar", "generic"):
        view.value = 1.0
    else:
        view.values = h.floats([1.0] * (3 if kind == "average" else 4))


def cases(tier):
    cs = []
    quick = tier == "quick"
    lv, tl = (2, 3) if quick else (3, 5)
    kinds = ["scalar", "generic", "point", "average"]

    @case(cs, time=300 if quick else 1500, max_paths=4000 if quick else 100000, conc=20, bounds="two parameter paths: any text of up to {} characters a, b, |, or up to {} levels of up to 2 such characters as tuple or list".format(tl, lv))
    def names(h):
        ps = h.mod("core.parameterset").ParameterSet()
        a, la = path(h, "a", lv, 2 if quick else 2, tl)
        b, lb = path(h, "b", lv, 2 if quick else 2, tl)
        kind = h.choice("kind", ["scalar"] if quick else ["scalar", "point"])
        h.check(ps.info(a) is None and ps.info(b) is None, "nothing known before the first request")
        va = request(h, ps, kind, a)
        eq = same(h, la, lb)
        r = h.attempt(lambda: request(h, ps, kind, b))
        if r[0] == "err":
            h.check(r[1] == "ParameterReadError", "refusal")
            h.check(starts(h, la, lb), "only children of a parameter already viewed are refused")
            return
        h.check(h.not_(starts(h, la, lb)), "no child of a parameter already viewed")
        h.check(va.empty and r[1].empty, "empty before the first write")
        put(h, va, kind)
        h.check(h.iff(eq, h.not_(r[1].empty)), "same parameter exactly when the paths are equal")
        for arg, levels in ((a, la), (b, lb)):
            i = ps.info(arg)
            h.check(i is not None, "known after the request")
            h.check(len(i.name) == len(levels), "levels of the reported name")
            for x, y in zip(i.name, levels):
                h.check(x == y, "reported name")
            h.check(i.region == ("World",), "reported region")
            h.check(i.unit == "K", "reported unit")

    @case(cs, time=300 if quick else 1500, max_paths=4000 if quick else 100000, conc=20, bounds="two regions below the root, in all spellings, up to {} levels of up to 2 characters".format(lv))
    def regions(h):
        ps = h.mod("core.parameterset").ParameterSet()
        kind = h.choice("kind", ["scalar"] if quick else kinds)
        root = h.word("World")
        a, la = path(h, "a", lv, 1 if quick else 2, minlevels=0, prefix=(root,))
        b, lb = path(h, "b", lv, 1 if quick else 2, minlevels=0, prefix=(root,))
        h.check(h.or_(ps.info("p", region=a) is None), "nothing known before the first request")
        va = request(h, ps, kind, "p", region=a)
        eq = same(h, la, lb)
        i = ps.info("p", region=b)
        h.check(h.iff(eq, i is not None), "only the requested region is known")
        vb = request(h, ps, kind, "p", region=b)
        put(h, va, kind)
        h.check(h.iff(eq, h.not_(vb.empty)), "same parameter exactly when the regions are equal")
        for arg, levels in ((a, la), (b, lb)):
            i = ps.info("p", region=arg)
            h.check(len(i.region) == len(levels), "levels of the reported region")
            for x, y in zip(i.region, levels):
                h.check(x == y, "reported region")
            h.check(i.name == ("p",), "reported name")

    @case(cs, time=200 if quick else 1500, max_paths=4000 if quick else 100000, conc=20, bounds="an information request for any path (text up to {} characters) around one request of any path of up to 2 levels".format(tl))
    def info(h):
        ps = h.mod("core.parameterset").ParameterSet()
        a, la = path(h, "a", 2, 1, tl)
        b, lb = path(h, "b", 2, 1, tl)
        early = h.flag("early")
        if early:
            h.check(ps.info(b) is None, "nothing known before the first request")
        va = request(h, ps, "scalar", a)
        i = ps.info(b)
        on_the_way = starts(h, lb, la)
        h.check(h.iff(i is not None, h.or_(same(h, la, lb), on_the_way)), "exactly the requested path and the way to it are known")
        if i is None:
            h.check(ps.info(b) is None, "asking does not create")
            h.check(ps.info(b, region=("World", "a")) is None, "nothing known in other regions")
        elif h.and_(on_the_way):
            h.check(i.parameter_type is None and i.unit is None and i.empty, "nothing is known about a parameter never requested")
        h.check(va.empty, "asking does not write")
        h.check(ps.info(a, region=h.word("World|b")) is None, "the region was never requested")

    @case(cs, time=200 if quick else 1500, max_paths=3000 if quick else 100000, conc=20, bounds="any first region level of up to 3 characters and any root name of up to 2 characters, all view kinds; regions without any level")
    def roots(h):
        root = h.string("root", "ab", 1, 2)
        first = h.string("first", "ab", 0, 3)
        ps = h.mod("core.parameterset").ParameterSet(root)
        kind = h.choice("kind", kinds)
        deep = h.flag("deep")
        how = h.choice("spelling", ["text", "tuple", "list"])
        levels = [first, h.word("c")] if deep else [first]
        region = {"tuple": tuple(levels), "list": list(levels), "text": (first + "|" + "c") if deep else first}[how]
        r = h.attempt(lambda: request(h, ps, kind, "p", region=region))
        eq = first == root
        h.check(h.iff(eq, r[0] == "ok"), "accepted exactly when the region starts at the root")
        if r[0] == "err":
            h.check(r[1] == "ValueError", "refused with ValueError")
            h.check(ps.info("p", region=region) is None, "nothing created")

    @case(cs, time=60, max_paths=100, conc=20, bounds="paths without any level, all view kinds and spellings")
    def nothing(h):
        ps = h.mod("core.parameterset").ParameterSet()
        kind = h.choice("kind", kinds)
        none = h.choice("none", [(), []])
        which = h.choice("which", ["name", "region"])
        if which == "name":
            h.raises(lambda: request(h, ps, kind, none), "ValueError", "no parameter name")
            h.raises(lambda: ps.info(none), "ValueError", "no parameter name in an information request")
        else:
            h.raises(lambda: request(h, ps, kind, "p", region=none), "ValueError", "no region name")
            h.check(ps.info("p", region=none) is None, "no region, no information")
        h.check(ps.info("p") is None, "nothing was created")

    units = {"scalar": ["K", "kg"], "point": ["K", "kg"], "average": ["K", "kg"], "generic": [None]}

    @case(cs, time=250 if quick else 1500, max_paths=6000 if quick else 100000, conc=20, bounds="all sequences of {} view requests of four paths and two regions with two units and all four types".format(2 if quick else 3))
    def first_request(h):
        ps = h.mod("core.parameterset").ParameterSet()
        first = {}
        for i in range(2 if quick else 3):
            name = h.choice("name{}".format(i), [("a",), ("a", "b"), ("b", "a"), ("c",)])
            region = h.choice("region{}".format(i), [("World",), ("World", "a")])
            kind = h.choice("kind{}".format(i), kinds)
            unit = h.choice("unit{}".format(i), units[kind])
            r = h.attempt(lambda: request(h, ps, kind, name, unit, region=region) if kind != "generic" else request(h, ps, kind, name, region=region))
            key = (name, region)
            parents = [k for k in first if k[1] == region and k[0] == name[:len(k[0])] and len(k[0]) < len(name)]
            if key not in first and not parents and not any(k[1] == region and k[0][:len(name)] == name for k in first):
                h.check(r[0] == "ok", "first request is granted")
            if r[0] == "ok" and key not in first:
                first[key] = (kind, unit)
            for (n, reg), (k, u) in first.items():
                inf = ps.info(n, region=reg)
                h.check(inf is not None and inf.name == n and inf.region == reg, "reported path and region")
                t = inf.parameter_type.name
                h.check(t == {"scalar": "SCALAR", "generic": "GENERIC", "point": "POINT_TIMESERIES", "average": "AVERAGE_TIMESERIES"}[k], "type of the first request")
                h.check(inf.unit == u, "unit of the first request")
                h.check(inf.empty, "nothing was written")

    return cs
