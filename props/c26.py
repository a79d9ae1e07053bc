"""C26: metadata edits and time axis changes touch exactly what is asked for."""
import numpy as np
import pandas as pd

from symex.runner import case

from . import calendar
from .frames import REQUIRED, gaps, make, missing, read, same

DAY = 86400
TIMES = [0, DAY * 365, DAY * 800]
VARS = ["c", "a", "b|d", "a|b"]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def frame(h, n, m, extra=True, where=()):
        """A frame of n timeseries, maybe a selection of a bigger one, and its content."""
        cut = h.flag("cut")
        k = n + 1 if cut else n
        meta = {"variable": VARS[:k], "scenario": [h.choice("scenario{}".format(i), ["p", "q"]) if i and (i < 2 or not quick) else "p" for i in range(k)]}
        if extra:
            ens = h.choice("ens", [[1, None, 2, None], ["x", "y", "x", 3]] if quick and n > 1 else [[1, None, 2, None], ["x", "y", "x", 3], None] if quick else [[1, None, 2, None], ["x", "y", "x", 3], [2, 1, 3, 2], [None, None, 1.5, "z"], None])
            if ens:
                meta["ens"] = ens[:k]
        df = make(h, gaps(h, "v", k, m, where), TIMES[:m], meta)
        if cut:
            gone = h.choice("gone", [0, k - 2] if quick else range(k))
            df = df.filter(variable=[v for i, v in enumerate(VARS[:k]) if i != gone])
        orig = read(h, df, "frame")
        h.check(len(orig[0]) == n, "selected")
        return df, orig

    def expect(h, df, orig, name, want, label):
        """The frame's content is that of before with the entries of one column replaced."""
        new = [dict(o, **{name: w}) for o, w in zip(orig[0], want)]
        got = read(h, df, label)
        same(h, got, (new, orig[1], orig[2]), label)
        names = list(df.meta.columns)
        h.check(names[:5] == REQUIRED and len(set(names)) == len(names), label + ": columns")

    def unique(metas):
        keys = [tuple(sorted((k, "gap" if missing(v) else (type(v) is str, v)) for k, v in m.items())) for m in metas]
        return len(set(keys)) == len(keys)

    NEW = ["x1", 5, 2.5, None, True]

    for n, m in ((1, 2), (3, 2)) if quick else ((2, 2), (4, 1)):
        @case(cs, name="whole_{}".format(n), time=100 if quick else 600, max_paths=20000, conc=30,
              bounds="{} timeseries of any values at {} times, maybe selected from a bigger frame; one value or a list of values set for a new or existing column, by set_meta or by item".format(n, m))
        def whole(h, n=n, m=m):
            df, orig = frame(h, n, m, where=[(0, 0)])
            name = h.choice("name", ["new", "ens", "region"])
            kind = h.choice("kind", ["one", "list", "series"])
            value = [h.choice("value{}".format(i), ["x1", 5] if i else NEW[:4]) for i in range(1 if kind == "one" else n)]
            if kind == "one":
                arg, want = value[0], value * n
            elif kind == "list":
                arg, want = list(value), value
            else:
                arg, want = pd.Series(value, name=name), value
            if h.flag("by item"):
                df[name] = arg
            elif kind == "series" and h.flag("unnamed"):
                df.set_meta(arg)
            else:
                df.set_meta(arg, name)
            expect(h, df, orig, name, want, "result")

    @case(cs, name="wrong_length", time=30, max_paths=500, conc=10, bounds="lists of the wrong length, columns without a name")
    def wrong_length(h):
        df, orig = frame(h, 2, 1, False)
        kind = h.choice("kind", ["short", "long", "no name", "series", "array"])
        arg = {"short": [1], "long": [1, 2, 3], "no name": "x", "series": pd.Series([1, 2]), "array": "x"}[kind]
        if kind in ("short", "long"):
            h.raises(lambda: df.set_meta(arg, h.choice("name", ["new", "region"])), "ValueError", "wrong length")
        elif kind == "array":
            h.raises(lambda: df.set_meta(arg, "new", np.array(["c"])), "ValueError", "no index")
        else:
            h.raises(lambda: df.set_meta(arg), "ValueError", "no name")
        same(h, read(h, df, "frame"), orig, "frame")

    for n, m in ((2, 2), (3, 1)) if quick else ((2, 3), (3, 2), (4, 1)):
        @case(cs, name="indexed_{}".format(n), time=120 if quick else 800, max_paths=30000, conc=30,
              bounds="{} timeseries of any values at {} times, maybe selected from a bigger frame; one or several values set for the timeseries addressed by up to three of the metadata columns (index, series, table or the index of a selection), also missing ones, in any order; entries not there or given twice".format(n, m))
        def indexed(h, n=n, m=m):
            df, orig = frame(h, n, m, where=[(0, 1)] if m > 1 else [])
            present = list(orig[0][0])
            by = [c for c in h.choice("by", [["variable"], ["ens", "variable"], ["scenario", "ens"]] if quick and n > 2 else [["scenario", "variable"], ["ens"], ["scenario"]] if quick else
                                      [["variable"], ["scenario", "variable"], ["ens"], ["ens", "variable"], ["scenario"], ["scenario", "ens"], ["variable", "region", "ens"], list(REQUIRED)]) if c in present]
            h.assume(by)
            def key(o):
                return tuple(None if missing(o[c]) else o[c] for c in by)

            keys = []
            for o in orig[0]:
                if key(o) not in keys:
                    keys.append(key(o))
            picked = list(h.permutation("order", keys)) if not quick and len(keys) < 4 else keys[::-1] if h.flag("backwards") else keys
            picked = [k for k in picked if h.flag("pick{}".format(keys.index(k)))]
            h.assume(picked)
            odd = h.choice("odd", ["", "unknown", "twice"])
            if odd == "unknown":
                picked = picked + [tuple("nothing" for _ in by)] if h.flag("last") else [tuple("nothing" for _ in by)] + picked
            if odd == "twice":
                picked = picked + picked[:1]
            name = "new" if odd else h.choice("name", ["new", "ens"] if quick else ["new", "ens", "region"])
            several = h.flag("several")
            values = [NEW[i % 3] if several else "x1" for i in range(len(picked))]
            form = h.choice("form", ["index", "series", "table"] if several else ["index"] if quick else ["index", "table"])
            rows = [list(k) for k in picked]
            if len(by) == 1:
                index = pd.Index([r[0] for r in rows], name=by[0], dtype=object)
            else:
                index = pd.MultiIndex.from_tuples([tuple(r) for r in rows], names=by)
            value = values if several else "x1"

            def act():
                if form == "index":
                    df.set_meta(value, name, index)
                elif form == "series":
                    df.set_meta(pd.Series(values, index=index, name=name))
                else:
                    df.set_meta(value, name, pd.DataFrame(rows, columns=by, dtype=object).assign(other=3.5))

            if odd:
                h.raises(act, "ValueError", "index entries unknown or given twice")
                same(h, read(h, df, "frame"), orig, "frame")
                return
            act()
            want = []
            for o in orig[0]:
                at = [i for i, k in enumerate(picked) if k == key(o)]
                want.append(values[at[0]] if at else o.get(name))
            expect(h, df, orig, name, want, "result")

    @case(cs, name="selection", time=60 if quick else 300, max_paths=2000, conc=30,
          bounds="3 timeseries of any values at 2 times; metadata set for a selection by its index, its metadata or a table of it")
    def selection(h):
        df, orig = frame(h, 3, 2)
        have = [o["variable"] for o in orig[0]]
        chosen = [v for v in have if h.flag("choose" + v)]
        h.assume(chosen)
        part = df.filter(variable=chosen)
        form = h.choice("form", ["index", "metadata", "table", "labels"])
        name = h.choice("name", ["new", "ens"])
        if form == "labels":
            values = [v.upper() for v in chosen]
            df.set_meta(part["variable"].apply(str.upper), name)
        else:
            values = ["x{}".format(i) for i in range(len(chosen))]
            df.set_meta(values, name, part.timeseries().index if form == "index" else part.meta if form == "metadata" else part.timeseries().reset_index())
        want = [values[chosen.index(o["variable"])] if o["variable"] in chosen else o.get(name) for o in orig[0]]
        expect(h, df, orig, name, want, "result")
        same(h, read(h, part, "selection"), ([o for o in orig[0] if o["variable"] in chosen], orig[1], [r for o, r in zip(orig[0], orig[2]) if o["variable"] in chosen]), "selection")

    MAPS = {"variable": [{"c": "z"}, {"c": "a", "a": "c"}, {"a": "c"}, {"c": "a", "a": "b|d", "b|d": "c"}, {"nothing": "a"}, {}, {"a": "q", "b|d": "q"}, {"c": 7, "a": None}],
            "scenario": [{"p": "q"}, {"p": "q", "q": "p"}, {"q": "r", "r": "p"}],
            "ens": [{1: 2, 2: 1}, {"x": "y"}, {1: "new"}, {"x": 1, "y": 2}],
            "junk": [{"a": "b"}, {}]}

    for n, m in ((2, 2), (3, 1)) if quick else ((2, 3), (3, 2), (4, 1)):
        @case(cs, name="rename_{}".format(n), time=120 if quick else 800, max_paths=30000, conc=30,
              bounds="{} timeseries of any values at {} times, maybe selected from a bigger frame; entries of one or two columns renamed (swapped, chained, merged, absent) in a copy or in place; unknown columns".format(n, m))
        def rename(h, n=n, m=m):
            df, orig = frame(h, n, m, where=[(0, 1)] if m > 1 and not quick else [])
            first = h.choice("column", ["variable", "scenario", "ens", "junk"])
            mapping = {first: h.choice("map", MAPS[first])}
            second = h.choice("second", [None, "variable", "scenario", "junk"])
            h.assume(second != first)
            if second:
                mapping[second] = h.choice("map2", MAPS[second][1:3] if quick and second != "junk" else MAPS[second])
            given = {k: dict(v) for k, v in mapping.items()}
            inplace = h.flag("in place")
            new = [{k: mapping[k].get(v, v) if k in mapping and not missing(v) else v for k, v in o.items()} for o in orig[0]]
            if any(k not in orig[0][0] for k in mapping) or not unique(new):
                h.raises(lambda: df.rename(mapping, inplace=inplace), "ValueError", "refused")
                same(h, read(h, df, "frame"), orig, "frame")
            else:
                r = df.rename(mapping, inplace=inplace)
                if inplace:
                    h.check(r is None, "nothing returned")
                else:
                    h.check(isinstance(r, type(df)), "same class")
                    same(h, read(h, df, "frame"), orig, "frame")
                same(h, read(h, df if inplace else r, "result"), (new, orig[1], orig[2]), "result")
            h.check(mapping == given, "mapping stays as given")

    @case(cs, name="copies", time=60, max_paths=1000, conc=30,
          bounds="2 timeseries of any values at 2 times; a copy, selection or rename of a frame edited, and the tables it gives out")
    def copies(h):
        df, orig = frame(h, 2, 2)
        how = h.choice("how", ["copy", "filter", "rename", "meta", "timeseries", "column"])
        if how == "meta":
            df.meta["variable"] = "q"
            df.meta.drop(0, errors="ignore")
        elif how == "timeseries":
            t = df.timeseries()
            t.iloc[0, 0] = 1.0
            t.columns = [1, 2]
        elif how == "column":
            df["variable"].iloc[0] = "q"
        else:
            c = df.copy() if how == "copy" else df.filter(scenario="*") if how == "filter" else df.rename({"variable": {"none": "some"}})
            what = h.choice("what", ["set", "item", "index", "rename", "time"])
            if what == "set":
                c.set_meta("q", "region")
            elif what == "item":
                c["ens"] = ["1", "2"]
            elif what == "index":
                c.set_meta("q", "region", pd.Index([orig[0][0]["variable"]], name="variable"))
            elif what == "rename":
                c.rename({"variable": {orig[0][0]["variable"]: "q"}}, inplace=True)
            else:
                c["time"] = [1900, 1901]
        same(h, read(h, df, "frame"), orig, "frame")

    for m in (1, 2, 3) if quick else (1, 2, 3, 4):
        @case(cs, name="time_{}".format(m), time=60 if quick else 300, max_paths=2000, conc=30,
              bounds="2 timeseries of any values at {} times; the times set to any seconds of the years 1 to 9998, as datetime64, datetime or years, or refused".format(m))
        def time(h, m=m):
            df = make(h, gaps(h, "v", 2, m, [(0, 0)]), ([0, DAY * 365, DAY * 800, DAY * 900])[:m], {"variable": ["b", "a"]})
            orig = read(h, df, "frame")
            kind = h.choice("kind", ["datetime64", "datetime", "years", "wrong length", "wrong"])
            if kind == "years":
                ys = [h.int("y{}".format(j), 1, 9998) for j in range(m)]
                for a, b in zip(ys, ys[1:]):
                    h.assume(a < b)
                ts = [calendar.year_start(y) for y in ys]
                new = h.objs(ys)
            elif kind == "wrong":
                h.raises(lambda: df.__setitem__("time", ["x"] * m), "ValueError", "times which are none")
                same(h, read(h, df, "frame"), orig, "frame")
                return
            else:
                k = m + h.choice("more", [-1, 1]) if kind == "wrong length" else m
                h.assume(k > 0)
                ts = [h.int("t{}".format(j), calendar.year_start(1), calendar.year_start(9999) - 1) for j in range(k)]
                for a, b in zip(ts, ts[1:]):
                    h.assume(a < b)
                new = h.dts([h.dt64_of(t) for t in ts]) if kind != "datetime" else [h.datetime_of(t) for t in ts]
            if kind == "wrong length":
                h.raises(lambda: df.__setitem__("time", new), "ValueError", "wrong number of times")
                same(h, read(h, df, "frame"), orig, "frame")
                return
            df["time"] = new
            same(h, read(h, df, "result"), (orig[0], ts, orig[2]), "result")

    return cs
