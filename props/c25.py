"""C25: anomalies relative to a reference period and statistics over groups of timeseries."""
from symex.runner import case

from . import calendar
from .frames import REQUIRED, gaps, isnan, make, missing, read, same, same_meta

DAY = 86400
TIMES = [0, DAY * 365, DAY * 800]


def sort(h, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = h.min([a, b]), h.max([a, b])
    return xs


def mean(xs):
    total = 0
    for x in xs:
        total = total + x
    return total / len(xs)


def statistic(h, operation, q, xs):
    """Mean, median or quantile of the values present."""
    xs = [x for x in xs if not isnan(x)]
    if not xs:
        return float("nan")
    if operation == "mean":
        return mean(xs)
    at = (len(xs) - 1) * (q if operation == "quantile" else 0.5)
    xs = sort(h, xs)
    lo = int(at)
    return xs[lo] if lo == len(xs) - 1 else xs[lo] * (1 - (at - lo)) + xs[lo + 1] * (at - lo)


def cases(tier):
    cs = []
    quick = tier == "quick"

    def value(h, got, want, label):
        if isnan(got) or isnan(want):
            h.check(isnan(got) and isnan(want), label + ": missing")
        else:
            h.eq(got, want, label)

    def table(h, df, label):
        """Metadata, times and values of a table."""
        names = list(df.index.names)
        keys = [k if isinstance(k, tuple) else (k,) for k in df.index]
        v = df.values
        return [dict(zip(names, k)) for k in keys], [h.seconds(t) for t in df.columns], [[v[i][j] for j in range(v.shape[1])] for i in range(v.shape[0])]

    def anomalies(h, df, orig, inref, append, suffix, **request):
        """inref(i, j): is value j of timeseries i in the reference period?"""
        res = df.relative_to_ref_period_mean(append, **request) if len(orig[0]) == 1 and h.flag("by position") else df.relative_to_ref_period_mean(append_str=append, **request)
        same(h, read(h, df, "original"), orig, "original")
        metas, secs, rows = table(h, res, "result")
        h.check(len(metas) == len(orig[0]) and len(secs) == len(orig[1]), "nothing lost or added")
        h.check(all(set(m) == set(o) for m, o in zip(metas, orig[0])), "metadata names")
        for a, b in zip(secs, orig[1]):
            h.eq(a, b, "times")
        for i, o in enumerate(orig[0]):
            want = dict(o, variable="{} {}".format(o["variable"], suffix))
            at = [k for k, m in enumerate(metas) if same_meta(m, want)]
            h.check(len(at) == 1, "one result for timeseries {}".format(i))
            ref = [x for j, x in enumerate(orig[2][i]) if inref(i, j) and not isnan(x)]
            base = mean(ref) if ref else float("nan")
            for x, y in zip(rows[at[0]], orig[2][i]):
                value(h, x, float("nan") if isnan(base) or isnan(y) else y - base, "anomaly of {}".format(i))

    ENS = [[1, 2, 3], [1, None, 2], [None, "x", None], [2.5, 1.5, float("nan")]]

    for n, m, where in ((1, 3, [(0, 1), (0, 2)]), (2, 2, [(0, 0), (1, 1)]), (3, 2, [(1, 0)])) if quick else ((2, 3, [(0, 0), (0, 1), (1, 2)]), (3, 3, [(0, 0), (2, 1)]), (4, 2, [(3, 0)])):
        @case(cs, name="anomaly_{}x{}".format(n, m), time=100 if quick else 600, max_paths=20000, conc=30,
              bounds="{} timeseries of any values at {} times, missing values at any of {}; the reference period given by years, a range of years, months or variables, possibly without data for some or all timeseries; further metadata present, missing or of mixed types; the suffix given or not".format(n, m, where))
        def anomaly(h, n=n, m=m, where=where):
            meta = {"variable": ["b|c", "a", "d e", "b"][:n]}
            ens = h.index("ens", len(ENS) + 1)
            if ens < len(ENS):
                meta["ens"] = (ENS[ens] + [7])[:n]
            if h.flag("same variable"):
                h.assume(ens == 0 or ens == 3)
                meta["variable"] = ["b"] * n
            df = make(h, gaps(h, "v", n, m, where), TIMES[:m], meta)
            orig = read(h, df, "original")
            kind = h.choice("kind", ["years", "range", "year", "months", "variable", "none"])
            years = [1970, 1971, 1972][:m]
            if kind == "years":
                ys = h.subset("years", years)
                h.assume(ys)
                req, inref, text = {"year": list(ys)}, lambda i, j: years[j] in ys, "year: {} - {}".format(*([ys[0], ys[-1]] if ys else [0, 0]))
            elif kind == "range":
                a = h.choice("from", [1970, 1971])
                req, inref, text = {"year": range(a, 1972)}, lambda i, j: a <= years[j] < 1972, "year: {} - 1971".format(a)
            elif kind == "year":
                a = h.choice("from", [1970, 1971])
                req, inref, text = {"year": a}, lambda i, j: years[j] == a, "year: {}".format(a)
            elif kind == "months":
                req, inref, text = {"month": [1], "year": [1970, 1971]}, lambda i, j: j < 2, "month: 1 - 1;year: 1970 - 1971"
            elif kind == "variable":
                k = h.index("which", n)
                v = meta["variable"][k]
                req, inref, text = {"variable": v, "year": [1970]}, lambda i, j: meta["variable"][i] == v and j == 0, "variable: {};year: 1970 - 1970".format(v)
            else:
                req, inref, text = {"year": [1900, 1901]}, lambda i, j: False, "year: 1900 - 1901"
            if h.flag("suffix") if not quick or n == 1 else kind == "months":
                anomalies(h, df, orig, inref, "rel. to x", "rel. to x", **req)
            else:
                anomalies(h, df, orig, inref, None, "(ref. period {})".format(text), **req)

    for m in (2, 3) if quick else (2, 3, 4):
        @case(cs, name="periods_{}".format(m), time=100 if quick else 600, max_paths=4000, conc=30,
              bounds="2 timeseries of any values at {} times, any increasing seconds of the years 1 to 9998, the reference period any years from a to b, or a month".format(m))
        def periods(h, m=m):
            ts = [h.int("t{}".format(j), calendar.year_start(1), calendar.year_start(9999) - 1) for j in range(m)]
            for a, b in zip(ts, ts[1:]):
                h.assume(a < b)
            df = make(h, [[h.real("v{}_{}".format(i, j)) for j in range(m)] for i in range(2)], ts, {"variable": ["b", "a"]})
            orig = read(h, df, "original")
            civil = [h.civil(t) for t in ts]
            if h.flag("years"):
                a, b = h.int("from", 1, 9998), h.int("to", 1, 9998)
                req = {"year": [a, b]}
                inref = [bool(h.or_(c[0] == a, c[0] == b)) for c in civil]
            else:
                a = h.int("month", 1, 12)
                req = {"month": a}
                inref = [bool(c[1] == a) for c in civil]
            anomalies(h, df, orig, lambda i, j: inref[j], "x", "x", **req)

    def group_case(n, m, where, operations, name):
        @case(cs, name=name, time=120 if quick else 700, max_paths=6000, conc=30,
              bounds="{} timeseries of any values at {} times, missing values at any of {}, every arrangement of them in groups by two of the metadata, possibly missing; {}".format(n, m, where, ", ".join(operations)))
        def groups(h):
            SCEN = ["p", "q"]
            ens = h.choice("ens", [[1, None], ["x", 1]] if quick and n > 2 else [[1, 2], ["x", None], [float("nan"), 3], ["x", 1]])
            scen = [SCEN[h.index("scenario{}".format(i), 2 if 0 < i < 3 else 1)] for i in range(n)]
            en = [ens[h.index("ens{}".format(i), 2)] for i in range(n)]
            var = [h.choice("variable{}".format(i), ["v", "w"]) if i == n - 1 else "vwvu"[i] for i in range(n)]
            key = [(a, "gap" if missing(b) else b, c) for a, b, c in zip(scen, en, var)]
            h.assume(len(set(key)) == n)
            df = make(h, gaps(h, "v", n, m, where), TIMES[:m], {"scenario": scen, "ens": en, "variable": var})
            orig = read(h, df, "original")
            over = h.choice("over", [["variable"], ("variable", "ens"), ["scenario", "ens"]] if quick and n > 2 else [["variable"], "variable", ["variable", "scenario"], ["ens", "variable"], ("scenario", "ens"), ["model", "scenario", "region", "variable", "unit"], []])
            cols = [over] if isinstance(over, str) else list(over)
            op = h.choice("operation", operations)
            q = h.choice("q", [0.3, 1] if quick else [0, 0.25, 0.5, 0.9, 1]) if op == "quantile" else None
            res = df.process_over(over, op, q=q) if op == "quantile" else df.process_over(over, op)
            same(h, read(h, df, "original"), orig, "original")
            metas, secs, rows = table(h, res, "result")
            h.check(len(secs) == m, "all times")
            for a, b in zip(secs, orig[1]):
                h.eq(a, b, "times")
            rest = [{k: x for k, x in o.items() if k not in cols} for o in orig[0]]
            want = []
            for i, r in enumerate(rest):
                for w, members in want:
                    if same_meta(w, r):
                        members.append(i)
                        break
                else:
                    want.append((r, [i]))
            h.check(len(metas) == len(want), "one result per combination of the other metadata")
            for w, members in want:
                at = [k for k, x in enumerate(metas) if same_meta(x, w)]
                h.check(len(at) == 1, "one result for {}".format(w))
                for j in range(m):
                    value(h, rows[at[0]][j], statistic(h, op, q, [orig[2][i][j] for i in members]), "statistic")

    OPS = ["mean", "median", "quantile"]
    for op in OPS:
        group_case(2, 2, [(0, 0), (1, 1)], [op], op + "_2")
        group_case(3, 1, [(1, 0)], [op], op + "_3")
        if not quick:
            group_case(4, 1, [(3, 0)], [op], op + "_4")

    @case(cs, name="refused", time=20, max_paths=50, conc=10, bounds="operations other than mean, median and quantile")
    def refused(h):
        df = make(h, [[h.real("a")], [h.real("b")]], TIMES[:1], {"variable": ["v", "w"]})
        orig = read(h, df, "original")
        op = h.choice("operation", ["max", "sum", "junk", "", "Mean", "min", "count", "std", "var", "quantiles"])
        h.raises(lambda: df.process_over("variable", op), "ValueError", "unknown operation")
        same(h, read(h, df, "original"), orig, "original")

    return cs
