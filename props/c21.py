"""C21: parameter sets and data frames convert into each other without loss."""
import numpy as np

from symex.runner import case

from .frames import isnan, make, missing, read, same

YEAR = 365 * 86400
TIMES = {"even": [0, YEAR, 2 * YEAR], "uneven": [-10, YEAR, YEAR + 7], "far": [-500 * YEAR, 0, 900 * YEAR], "near": [5, 9, 10]}
REGIONS = ["World", "World|A", "World|B", "World|A|x", "World|A|x|deep"]
UNITS = ["K", "GtC/yr", "W/m^2", "kg / (m^2 a)"]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def export(h, ps, times, **k):
        return h.mod("scmdataframe").convert_openscm_to_scmdataframe(ps, h.dts([h.dt64_of(t) for t in times]), **k)

    def table(h, content):
        """(variable, region) -> (unit, type, values)"""
        metas, secs, rows = content
        t = {(m["variable"], m["region"]): (m["unit"], m.get("parameter_type"), r) for m, r in zip(metas, rows)}
        h.check(len(t) == len(metas), "each variable and region once")
        return t

    def rest(m):
        return {k: v for k, v in m.items() if k not in ("variable", "region", "unit", "parameter_type")}

    def same_values(h, a, b, label):
        h.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            h.eq(x, y, label)

    def draw(h, n, variables, times, types=("point", "average"), fixed=False):
        out = []
        regions = ([REGIONS[0], REGIONS[1], REGIONS[4]] if quick else REGIONS) if n == 1 or not quick else [REGIONS[i] for i in h.choice("regions", [(0, 0, 0), (0, 1, 3), (3, 3, 3), (4, 4, 1), (2, 3, 4)])]
        for i in range(n):
            v = variables[i]
            region = regions[i] if n > 1 and quick else h.choice("region{}".format(i), regions)
            unit = UNITS[i % 2] if n > 1 and (i or fixed) and quick else h.choice("unit{}".format(i), UNITS[:2] if n > 1 else UNITS)
            out.append((v, region, unit, h.choice("type{}".format(i), list(types)), [h.real("v{}_{}".format(i, j)) for j in range(len(times))]))
        return out

    VARIABLES = {1: [["Emissions|CO2"], ["T"], ["a|b|c|d"]], 2: [["Emissions|CO2", "Emissions|CH4"], ["T", "T|x"], ["same", "same"]], 3: [["a", "b|c", "b|d"], ["b|d", "b|c", "b|a|x"]]}

    for n in (1, 2) if quick else (1, 2, 3):
        @case(cs, name="frame_{}".format(n), time=200 if quick else 900, max_paths=3000, conc=40,
              bounds="{} timeseries of any values with 3 times (far, near, uneven), in regions up to depth 4 (quick: 5 combinations for several), two or four units, both types or none given (implied by variable and unit); to a parameter set and back".format(n))
        def frame(h, n=n):
            times = TIMES[h.choice("times", sorted(TIMES) if n == 1 else ["even", "uneven"])]
            vs = h.choice("variables", VARIABLES[n][1:] if n == 1 and quick else VARIABLES[n])
            plus = n == 1 and h.flag("more")
            rows = draw(h, n, vs, times, ("point", "average") if n > 1 else ("point", "average", None))
            h.assume(len(set((r[0], r[1]) for r in rows)) == n)
            by = {}
            for r in rows:  # no parameter together with its own children
                by.setdefault(r[1], []).append(r[0])
            h.assume(not any(a != b and b.startswith(a + "|") for names in by.values() for a in names for b in names))
            meta = {"variable": [r[0] for r in rows], "region": [r[1] for r in rows], "unit": [r[2] for r in rows],
                    "model": ["m"] * n, "scenario": ["s"] * n, "note": ["hello"] * n, "number": [h.real("number")] * n, "A|deep (GtC)": [2.5] * n, "ECS (fast) (kg / (m^2 a))": [-1.0] * n}
            if rows[0][3] is not None:
                meta["parameter_type"] = [r[3] for r in rows]
            if plus:
                meta["climate_model"] = ["unspecified"] * n
            df = make(h, [r[4] for r in rows], times, meta)
            orig = read(h, df, "frame")
            into = h.mod("core").ParameterSet() if plus else None
            ps = df.to_parameterset() if into is None else df.to_parameterset(into)
            h.check(into is None or ps is into, "the given parameter set")
            same(h, read(h, df, "frame after"), orig, "frame after")
            for v, r, u, t, vals in rows:
                info = ps.info(v, r)
                if t is None:
                    t = "average" if u != "K" else "point"
                h.check(info is not None and info.unit == u and info.parameter_type == h.mod("core.parameters").ParameterType.from_timeseries_type(t), "unit and type of " + v)
            h.check(ps.generic("note").value == "hello", "text")
            h.eq(ps.generic("number").value, meta["number"][0], "number")
            h.eq(ps.scalar("A|deep", "GtC").value, 2.5, "scalar")
            h.eq(ps.scalar("ECS (fast)", "kg / (m^2 a)").value, -1.0, "scalar with brackets")
            res = read(h, export(h, ps, times), "result")
            h.check(len(res[1]) == len(times), "number of times")
            for a, b in zip(res[1], times):
                h.eq(a, b, "times")
            got = table(h, res)
            h.check(set(got) == set((r[0], r[1]) for r in rows), "variables and regions")
            for v, r, u, t, vals in rows:
                g = got[v, r]
                if t is None:
                    t = "average" if u != "K" else "point"
                h.check(g[0] == u and g[1] == t, "unit and type")
                same_values(h, g[2], vals, "values")
            want = dict(rest(orig[0][0]), climate_model="unspecified")
            for m in res[0]:
                m = rest(m)
                h.check(set(m) == set(want) and all(k == "number" or m[k] == want[k] for k in m), "other metadata")
                h.eq(m["number"], meta["number"][0], "number")

    @case(cs, name="parameters", time=200 if quick else 900, max_paths=3000, conc=40,
          bounds="parameter sets of up to two timeseries, one scalar and one generic (text, number, flag) of any values at the root; two timeseries in regions up to depth 4, either type; to a frame and back")
    def parameters(h):
        core = h.mod("core")
        ps = core.ParameterSet()
        times = TIMES["far" if quick else h.choice("times", ["even", "far"])]
        rows = draw(h, 2, h.choice("variables", VARIABLES[2][::2] + [["x|y|z", "x|z"]]), times, fixed=True)
        h.assume(len(set((r[0], r[1]) for r in rows)) == 2)
        for v, r, u, t, vals in rows:
            tp = times if t == "point" else times + [2 * times[-1] - times[-2]]
            ps.timeseries(v, u, h.dts([h.dt64_of(s) for s in tp]), region=tuple(r.split("|")), timeseries_type=t).values = h.floats(vals)
        s = h.real("scalar")
        names = {}
        scalar, g, named = h.choice("others", [(False, None, False), (True, "text", True), (True, None, False), (False, 4.0, True), (False, True, False)])
        if scalar:
            ps.scalar(("f", "g"), "K").value = s
            names["f|g (K)"] = s
        if g is not None:
            ps.generic("h|i").value = g
            names["h|i"] = g
        if named:
            ps.generic("model").value = "mine"
            names["model"] = "mine"
        df = export(h, ps, times, scenario="sc", climate_model=h.choice("climate", ["unspecified", "cm"]))
        res = read(h, df, "result")
        got = table(h, res)
        h.check(set(got) == set((r[0], r[1]) for r in rows), "variables and regions")
        for v, r, u, t, vals in rows:
            h.check(got[v, r][:2] == (u, t), "unit and type")
            same_values(h, got[v, r][2], vals, "values")
        want = dict({"model": "unspecified", "scenario": "sc", "climate_model": res[0][0]["climate_model"]}, **names)
        for m in res[0]:
            m = rest(m)
            h.check(set(m) == set(want), "metadata names")
            for k in want:
                if k == "f|g (K)":
                    h.eq(m[k], s, "scalar")
                else:
                    h.check(m[k] == want[k], "metadata " + k)
        if res[0][0]["climate_model"] != "unspecified":
            h.raises(lambda: df.to_parameterset(), "ValueError", "output of a climate model")
            return
        back = df.to_parameterset()
        for v, r, u, t, vals in rows:
            tp = times if t == "point" else times + [2 * times[-1] - times[-2]]
            same_values(h, back.timeseries(v, u, h.dts([h.dt64_of(s) for s in tp]), region=r, timeseries_type=t).values, vals, "values back")
        if "f|g (K)" in names:
            h.eq(back.scalar("f|g", "K").value, s, "scalar back")
        if g is not None:
            h.check(back.generic("h|i").value == g, "generic back")

    @case(cs, name="refused", time=60, max_paths=300, conc=20,
          bounds="frames of two timeseries differing in model, scenario or another column, or of a climate model; parameter sets with generic or scalar parameters in other regions up to depth 3")
    def refused(h):
        what = h.choice("what", ["model", "scenario", "extra", "number", "climate model", "generic", "scalar"])
        values = [[h.real("v{}_{}".format(i, j)) for j in range(3)] for i in range(2)]
        if what in ("generic", "scalar"):
            ps = h.mod("core").ParameterSet()
            ps.timeseries("a", "K", h.dts([h.dt64_of(s) for s in (0, YEAR, 2 * YEAR)])).values = h.floats(values[0])
            r = h.choice("region", REGIONS)
            v = h.real("value")
            if what == "generic":
                ps.generic("b", region=r).value = "x"
            else:
                ps.scalar("b|c", "K", region=r).value = v
            if r == "World":
                h.check(h.attempt(lambda: export(h, ps, [0, YEAR, 2 * YEAR]))[0] == "ok", "at the root")
            else:
                h.raises(lambda: export(h, ps, [0, YEAR, 2 * YEAR]), "ValueError", "outside of the root")
            return
        meta = {"variable": ["a", "b"], "region": ["World", "World"]}
        meta[{"climate model": "climate_model"}.get(what, what)] = {"number": [1, 2], "climate model": ["MAGICC", "MAGICC"]}.get(what, ["x", "y"])
        df = make(h, values, [0, YEAR, 2 * YEAR], meta)
        orig = read(h, df, "frame")
        ps = h.mod("core").ParameterSet() if h.flag("into") else None
        h.raises(lambda: df.to_parameterset(ps), "ValueError", what)
        if ps is not None:
            h.check(ps.info("a") is None and ps.info("b") is None, "nothing added")
        same(h, read(h, df, "frame after"), orig, "frame after")

    return cs
