"""C18: unit conversion of data frames changes exactly the selected timeseries."""
from symex.runner import case

from . import symunits
from .frames import gaps, isnan, make, missing, read, same, same_meta

TIMES = [0, 86400 * 365, 86400 * 800]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def check_result(h, got, orig, selected, target, context, convert, label):
        metas, secs, rows = got
        h.check(len(metas) == len(orig[0]) and len(secs) == len(orig[1]), label + ": nothing lost or added")
        for x, y in zip(secs, orig[1]):
            h.eq(x, y, label + ": times")
        for i, (a, b) in enumerate(zip(metas, orig[0])):
            want = dict(b)
            want.setdefault("unit_context", None)
            if selected[i]:
                want["unit"], want["unit_context"] = target, context
            h.check(same_meta(a, want), label + ": metadata of {}".format(i))
            for x, y in zip(rows[i], orig[2][i]):
                if isnan(x) or isnan(y):
                    h.check(isnan(x) and isnan(y), label + ": missing values")
                else:
                    h.eq(x, convert(b["unit"], y) if selected[i] else y, label + ": values of {}".format(i), tol=1e-6 if not h.symbolic else 0)

    def selection(h, n, variables):
        kind = h.choice("select", ["all", "one", "two", "none", "by year"])
        if kind == "all":
            return {}, [True] * n
        if kind == "none":
            return {"variable": "nothing"}, [False] * n
        if kind == "by year":
            return {"variable": variables[0], "year": 1970}, [i == 0 for i in range(n)]
        k = h.index("which", n)
        if kind == "one":
            return {"variable": variables[k]}, [i == k for i in range(n)]
        return {"variable": [v for i, v in enumerate(variables) if i != k]}, [i != k for i in range(n)]

    def run(h, df, orig, target, kwargs, selected, possible, convert, context=None):
        """Copy, then in place."""
        if not possible:
            e = h.attempt(lambda: df.convert_unit(target, context=context, **kwargs), "copy")
            h.check(e[0] == "err", "impossible conversion is refused")
            same(h, read(h, df, "original"), orig, "original after refusal")
            e = h.attempt(lambda: df.convert_unit(target, context=context, inplace=True, **kwargs), "in place")
            h.check(e[0] == "err", "impossible conversion in place is refused")
            same(h, read(h, df, "original"), orig, "original after refusal in place")
            return
        r = df.convert_unit(target, context=context, **kwargs)
        same(h, read(h, df, "original"), orig, "original")
        check_result(h, read(h, r, "result"), orig, selected, target, context, convert, "result")
        h.check(df.convert_unit(target, context=context, inplace=True, **kwargs) is None, "in place returns nothing")
        check_result(h, read(h, df, "in place"), orig, selected, target, context, convert, "in place")

    VARS = ["a", "b|c", "d"]

    for n, m, where in ((1, 2, [(0, 1)]), (2, 2, [(1, 0)]), (3, 1, [])) if quick else ((1, 3, [(0, 1), (0, 0)]), (2, 2, [(0, 0), (1, 0)]), (3, 2, [(1, 1)])):
        @case(cs, name="scales_{}x{}".format(n, m), time=100 if quick else 600, max_paths=3000, conc=40,
              bounds="{} timeseries of any values at {} times, missing values at any of {}, each in one of three units (two of one dimension with any scales in [0.01, 100], one of another); any selection".format(n, m, where))
        def scales(h, n=n, m=m, where=where):
            b, c = symunits.base(h, "dfbase"), symunits.base(h, "dfother")
            k = {}
            us = []
            for i in range(2):
                s = symunits.scale(h, "k{}".format(i))
                us.append(symunits.define(h, "dfu{}x".format(i), s, {b: 1}))
                k[us[-1]] = s
            us.append(c)
            k[c] = None
            units = [h.choice("unit{}".format(i), us) for i in range(n)]
            meta = {"variable": VARS[:n], "unit": units}
            if h.flag("context column"):
                meta["unit_context"] = ["old", None, "older"][:n]
            df = make(h, gaps(h, "v", n, m, where), TIMES[:m], meta)
            orig = read(h, df, "original")
            target = us[h.index("target", 2)]
            kwargs, selected = selection(h, n, VARS[:n])
            if where:
                h.assume(h.or_(not all(isnan(x) for x in orig[2][0]), "year" not in kwargs))
                if "year" in kwargs:
                    h.assume(not isnan(orig[2][0][0]))
            possible = all(k[u] is not None for u, s in zip(units, selected) if s)
            run(h, df, orig, target, kwargs, selected, possible, lambda u, x: x * k[u] / k[target])

    @case(cs, name="offsets", time=100, max_paths=500, conc=40,
          bounds="2 timeseries of any values at 2 times in K, degC or degF, converted to each of these")
    def offsets(h):
        us = {"K": (1.0, 0.0), "degC": (1.0, 273.15), "degF": (5 / 9, 255.372222222)}
        units = [h.choice("unit{}".format(i), list(us)) for i in range(2)]
        df = make(h, gaps(h, "v", 2, 2), TIMES[:2], {"variable": VARS[:2], "unit": units})
        orig = read(h, df, "original")
        target = h.choice("target", list(us))
        (a, b) = us[target]
        uc = h.mod("core.units").UnitConverter

        def convert(u, x):
            y = (x * us[u][0] + us[u][1] - b) / a
            z = uc(u, target).convert_from(x)
            h.check(h.and_(z - y < 1e-6, y - z < 1e-6), "converter")
            return z

        kwargs, selected = selection(h, 2, VARS[:2])
        run(h, df, orig, target, kwargs, selected, True, convert)

    @case(cs, name="contexts", time=100, max_paths=500, conc=40,
          bounds="3 timeseries of any values at 1 time in Mt CH4/yr, kt N2O/d and GtC/yr, converted to Mt CO2/yr without context or in AR4GWP100 or SARGWP100")
    def contexts(h):
        gwp = {"AR4GWP100": {"CH4": 25, "N2O": 298}, "SARGWP100": {"CH4": 21, "N2O": 310}}
        units = ["Mt CH4/yr", "kt N2O/d", "GtC/yr"]
        df = make(h, gaps(h, "v", 3, 1), TIMES[:1], {"variable": VARS, "unit": units})
        orig = read(h, df, "original")
        context = h.choice("context", [None, "AR4GWP100", "SARGWP100"])
        kwargs, selected = selection(h, 3, VARS)
        possible = context is not None or not any(s and "C/" not in u for u, s in zip(units, selected))
        uc = h.mod("core.units").UnitConverter

        def convert(u, x):
            c = uc(u, "Mt CO2/yr", context=context)
            f = {"Mt CH4/yr": gwp.get(context, {}).get("CH4", 0) * 1.0, "kt N2O/d": gwp.get(context, {}).get("N2O", 0) * 0.36525, "GtC/yr": 1000 * 44 / 12}[u]
            z, y = c.convert_from(x), x * f
            h.check(h.and_(z - y < 1, y - z < 1), "converter")
            return z

        run(h, df, orig, "Mt CO2/yr", kwargs, selected, possible, convert, context)

    @case(cs, name="twice", time=100, max_paths=500, conc=40,
          bounds="2 timeseries of any values at 2 times, converted one after the other in different contexts, and back")
    def twice(h):
        df = make(h, gaps(h, "v", 2, 2, [(0, 0)]), TIMES[:2], {"variable": ["a", "b"], "unit": ["Mt CH4/yr", "Mt N2O/yr"]})
        orig = read(h, df, "original")
        r = df.convert_unit("Mt CO2/yr", context="AR4GWP100", variable="a").convert_unit("Mt CO2/yr", context="SARGWP100", variable="b")
        metas, _, rows = read(h, r, "result")
        h.check([m["unit_context"] for m in metas] == ["AR4GWP100", "SARGWP100"] and all(m["unit"] == "Mt CO2/yr" for m in metas), "contexts")
        for i, f in enumerate((25, 310)):
            for x, y in zip(rows[i], orig[2][i]):
                h.check(isnan(x) == isnan(y), "missing")
                if not isnan(x):
                    h.eq(x, y * f, "values of {}".format(i))
        back = r.convert_unit("Mt CH4/yr", context="AR4GWP100", variable="a")
        metas, _, rows = read(h, back, "back")
        h.check(metas[0]["unit"] == "Mt CH4/yr" and metas[1]["unit"] == "Mt CO2/yr", "units")
        for x, y in zip(rows[0], orig[2][0]):
            h.check(isnan(x) == isnan(y), "missing")
            if not isnan(x):
                h.eq(x, y, "round trip")

    return cs
