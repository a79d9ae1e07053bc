"""C22: the same data in any accepted format give the same frame."""
import datetime

import numpy as np
import pandas as pd

from symex.runner import case

from .frames import REQUIRED, gaps, isnan, missing, read, same_meta

NAN = float("nan")
BASE = {"model": "m", "scenario": "s", "region": "World", "unit": "K"}
# instants as seconds, years where they are whole
DATES = {"years": [datetime.datetime(y, 1, 1) for y in (1000, 1995, 2010)], "far": [datetime.datetime(*d) for d in ((995, 3, 1), (2005, 12, 31, 23, 59, 59), (9000, 1, 2))],
         "days": [datetime.datetime(2000, 1, d) for d in (2, 9, 10)]}
EPOCH = datetime.datetime(1970, 1, 1)
EXTRAS = {"none": {}, "texts": {"note": ["x", "y", "x"]}, "numbers": {"number": [3, -999, 2.5]}, "missing": {"note": ["x", NAN, "z"], "number": [NAN, 1.0, NAN]}, "mixed": {"note": ["x", 2, NAN], "flag": [True, False, True]}}


def secs(d):
    d = d - EPOCH
    return d.days * 86400 + d.seconds


def cases(tier):
    cs = []
    quick = tier == "quick"

    def data(h, n, m, where=None):
        kind = h.choice("times", sorted(DATES))
        values = gaps(h, "v", n, m, where)
        extra = EXTRAS[h.choice("extra", sorted(EXTRAS))]
        metas = [dict(BASE, variable="v{}".format(i), **{k: v[i] for k, v in extra.items()}) for i in range(n)]
        return kind, DATES[kind][:m], metas, values

    def num(h, xs):
        """A column of numbers."""
        return h.floats(list(xs))

    def check_frame(h, df, dates, metas, values, label):
        got = read(h, df, label)
        h.check([int(s) for s in got[1]] == [secs(d) for d in dates], label + ": times")
        h.check(list(got[0][0]) == REQUIRED + sorted(set(metas[0]) - set(REQUIRED)), label + ": order of metadata columns")
        h.check(len(got[0]) == len(metas), label + ": number of timeseries")
        for m, want in zip(metas, values):
            rows = [r for k, r in zip(got[0], got[2]) if same_meta(k, m)]
            h.check(len(rows) == 1, label + ": timeseries")
            for x, y in zip(rows[0], want):
                if isnan(x) or isnan(y):
                    h.check(isnan(x) and isnan(y), label + ": missing values")
                else:
                    h.eq(x, y, label + ": values")

    def stamps(kind, dates, how):
        if how == "years":
            return [d.year for d in dates]
        if how == "year texts":
            return [str(d.year) for d in dates]
        if how == "texts":
            return [d.isoformat(" ") if d.year >= 1000 else "0" + d.isoformat(" ").lstrip("0") for d in dates]
        return list(dates)

    def how_times(h, kind):
        return h.choice("how", ["years", "year texts", "datetimes"] if kind == "years" else ["datetimes", "texts"])

    def table(h, columns, order):
        """Columns of objects or numbers in the given order."""
        d = pd.DataFrame({i: columns[c] for i, c in enumerate(order)})
        d.columns = pd.Index(order, dtype=object)
        return d

    def case_of(h, names, how):
        return {n: n if how == "lower" or not isinstance(n, str) else n.upper() if how == "upper" else n.title() for n in names}

    def load(h, x, label, *a, **k):
        before = x.copy() if isinstance(x, (pd.DataFrame, pd.Series)) else None
        df = h.mod("scmdataframe").ScmDataFrame(x, *a, **k)
        if before is not None:
            same = list(x.index) == list(before.index) and list(x.index.names) == list(before.index.names)
            if isinstance(x, pd.DataFrame):
                same = same and list(x.columns) == list(before.columns) and list(x.columns.names) == list(before.columns.names)
            h.check(same, label + ": the data given stay as they are")
        return df

    n = 2 if quick else 3

    @case(cs, name="wide", time=200 if quick else 900, max_paths=3000, conc=40,
          bounds="wide tables of {0} timeseries at 3 times (years, days, far dates) with any values or missing ones, times as numbers, texts or datetimes, several orders of the times, several orders of rows and columns, names in 3 letter cases, extra metadata of 5 kinds, metadata as columns or index".format(n))
    def wide(h):
        kind, dates, metas, values = data(h, n, 3, [(0, 1)])
        how = how_times(h, kind)
        names = case_of(h, list(metas[0]), h.choice("case", ["lower", "upper", "title"]))
        perm = h.choice("time order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)]) if quick else h.permutation("time order", range(3))
        rows = list(range(n))[::-1] if h.flag("reversed") else list(range(n))
        ts = stamps(kind, dates, how)
        columns = {names[k]: h.objs([metas[i][k] for i in rows]) for k in metas[0]}
        columns.update({ts[j]: num(h, [values[i][j] for i in rows]) for j in perm})
        order = list(columns)
        last = h.flag("metadata last")
        if last:
            order = order[::-1]
        x = table(h, columns, order)
        shape = h.choice("shape", ["columns", "index", "other index"] if n > 2 or not last else ["columns"])
        if shape == "index" and not any(missing(v) for m in metas for v in m.values()):
            x = x.set_index([names[k] for k in metas[0]])
        elif shape == "other index":
            x.index = [7, 3, 9][:n]
        check_frame(h, load(h, x, "wide"), dates, metas, values, "wide")

    @case(cs, name="long", time=200 if quick else 900, max_paths=3000, conc=40,
          bounds="long tables of {0} timeseries at 3 times with any values or missing ones (given as missing or left out), times by year (numbers) or time (datetimes or texts), rows in 3 orders and columns in 2, names in 3 letter cases, extra metadata of 5 kinds".format(n))
    def long(h):
        kind, dates, metas, values = data(h, n, 3, [(0, 1), (n - 1, 2)])
        how = h.choice("how", ["year", "datetimes"] if kind == "years" else ["datetimes", "texts"])
        if kind == "far":
            h.assume(how != "texts")
        ts = stamps(kind, dates, "years" if how == "year" else how)
        names = case_of(h, list(metas[0]) + ["value", "year", "time"], h.choice("case", ["lower", "upper", "title"]))
        cells = [(i, j) for i in range(n) for j in range(3)]
        cells = {"plain": cells, "reversed": cells[::-1], "by time": sorted(cells, key=lambda c: (c[1], -c[0]))}[h.choice("rows", ["plain", "reversed", "by time"])]
        if h.flag("left out"):
            cells = [(i, j) for i, j in cells if not isnan(values[i][j])]
        columns = {names[k]: h.objs([metas[i][k] for i, j in cells]) for k in metas[0]}
        columns[names["year" if how == "year" else "time"]] = h.objs([ts[j] for i, j in cells]) if how != "year" else np.array([ts[j] for i, j in cells])
        columns[names["value"]] = num(h, [values[i][j] for i, j in cells])
        order = list(columns)[::-1] if h.flag("values first") else list(columns)
        x = table(h, columns, order)
        if h.flag("series") and not any(missing(v) for m in metas for v in m.values()):
            x = x.set_index([c for c in order if c != names["value"]])[names["value"]]
        check_frame(h, load(h, x, "long"), dates, metas, values, "long")

    @case(cs, name="arrays", time=200 if quick else 900, max_paths=3000, conc=40,
          bounds="arrays, tables or lists of {0} timeseries at 3 times in any order, any values or missing ones, times as datetimes or datetime64 (list, array or index of the table), metadata as lists, arrays, tuples or series, one value for all as list of one or alone, extra metadata of 5 kinds".format(n))
    def arrays(h):
        kind, dates, metas, values = data(h, n, 3, [(1, 0)])
        perm = h.choice("time order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)]) if quick else h.permutation("time order", range(3))
        rows = [[values[i][j] for i in range(n)] for j in perm]
        when = [dates[j] for j in perm]
        as_ = h.choice("index", ["list", "array", "datetime64", "of table"])
        combos = [("list", "alone"), ("list", "one"), ("array", "one"), ("tuple", "one"), ("series", "one"), ("array", "all"), ("tuple", "all"), ("series", "all")]
        form, one = h.choice("metadata", combos)
        make = {"list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=object), "series": lambda v: pd.Series(v, dtype=object)}[form]
        columns = {}
        for k in metas[0]:
            v = [m[k] for m in metas]
            if k in BASE and one != "all":
                columns[k] = v[0] if one == "alone" else make(v[:1])
            else:
                columns[k] = make(v)
        given = dict(columns)
        x = h.matrix(rows)
        if as_ == "of table":
            x = pd.DataFrame(x, columns=["p", "q", "r"][:n], index=pd.Index(when, dtype=object))
            df = load(h, x, "arrays", columns=columns)
        else:
            index = {"list": when, "array": np.array(when, dtype=object), "datetime64": np.array(when, dtype="datetime64[s]")}[as_]
            if h.flag("table"):
                x = pd.DataFrame(x, index=[5, 6, 7])
            df = load(h, x, "arrays", index=index, columns=columns)
        h.check(set(columns) == set(given) and all(columns[k] is given[k] for k in given), "the metadata given stay as they are")
        check_frame(h, df, dates, metas, values, "arrays")
        other = h.mod("scmdataframe").ScmDataFrame(df)
        check_frame(h, other, dates, metas, values, "other frame")
        other.set_meta("changed", name="model")
        check_frame(h, df, dates, metas, values, "after changing the copy")

    @case(cs, name="refused", time=60, max_paths=400, conc=20,
          bounds="each required column missing, in each format and letter case; tables without times, with both or no time columns; arrays with metadata of wrong lengths")
    def refused(h):
        sd = h.mod("scmdataframe")
        v = [h.real("v{}".format(i)) for i in range(3)]
        m = dict(BASE, variable="v")
        what = h.choice("what", ["wide", "long", "arrays", "no times", "both times", "no time", "length"])
        if what in ("wide", "long", "arrays"):
            drop = h.choice("dropped", REQUIRED)
            how = h.choice("case", ["lower", "upper"])
            kept = {k: x for k, x in m.items() if k != drop}
            names = case_of(h, kept, how)
            if what == "wide":
                x = pd.DataFrame(dict({names[k]: h.objs([kept[k]]) for k in kept}, **{"2000": num(h, v[:1])}))
                h.raises(lambda: sd.ScmDataFrame(x), "ValueError", "missing column")
            elif what == "long":
                x = pd.DataFrame(dict({names[k]: h.objs([kept[k]] * 3) for k in kept}, year=np.array([1, 2, 3]), value=num(h, v)))
                h.raises(lambda: sd.ScmDataFrame(x), "ValueError", "missing column")
            else:
                h.raises(lambda: sd.ScmDataFrame(h.matrix([[x] for x in v]), index=[2000, 2001, 2002], columns=kept), "ValueError", "missing column")
        elif what == "no times":
            x = pd.DataFrame({k: h.objs([m[k]]) for k in m})
            h.raises(lambda: sd.ScmDataFrame(x), "ValueError", "no times")
        elif what == "length":
            k = h.choice("column", REQUIRED + ["extra"])
            bad = dict(m, **{k: ["a", "b", "c"]})
            h.raises(lambda: sd.ScmDataFrame(h.matrix([v[:2]]), index=[2000], columns=bad), "ValueError", "wrong number of metadata")
        else:
            cols = {k: h.objs([m[k]] * 3) for k in m}
            if what == "both times":
                cols.update(year=np.array([1, 2, 3]), time=np.array([1, 2, 3]))
            x = pd.DataFrame(dict(cols, value=num(h, v)))
            h.raises(lambda: sd.ScmDataFrame(x), "ValueError", "time columns")

    return cs
