"""C17: filtering partitions the data and never alters it."""
from symex.runner import case

from . import calendar
from .frames import REQUIRED, gaps, isnan, make, read, same, same_meta

LO, HI = calendar.year_start(1500), calendar.year_start(2501) - 1


def cases(tier):
    cs = []
    quick = tier == "quick"
    META = {"variable": ["a", "a|b", "c"], "scenario": ["x", "y", "y"], "note": [1, 2, 1]}

    def times(h, m):
        ts = [h.int("t{}".format(i), LO, HI) for i in range(m)]
        for a, b in zip(ts, ts[1:]):
            h.assume(a < b)
        return ts

    def request(h, ts, n):
        """A filter request, the selected timeseries and the selected times."""
        kind = h.choice("kind", ["none", "variable", "scenario", "note", "level", "year", "hour", "variable year", "scenario time", "note month", "nothing"])
        rows, cols = [True] * n, [True] * len(ts)
        req = {}
        for k in kind.split():
            if k == "variable":
                req[k] = h.choice("variable", ["a*", "*|b", "c"])
                sel = {"a*": ["a", "a|b"], "*|b": ["a|b"], "c": ["c"]}[req[k]]
                rows = [r and META[k][i] in sel for i, r in enumerate(rows)]
            elif k == "scenario":
                req[k] = h.choice("scenario", ["x", ["y"]])
                rows = [r and META[k][i] in req[k] for i, r in enumerate(rows)]
            elif k == "note":
                req[k] = h.int("note", 0, 3)
                rows = [h.and_(r, req[k] == META[k][i]) for i, r in enumerate(rows)]
            elif k == "level":
                req[k] = 1
                rows = [r and "|" in META["variable"][i] for i, r in enumerate(rows)]
            elif k == "year":
                req[k] = h.int("year", 1500, 2500)
                cols = [h.and_(c, h.civil(t)[0] == req[k]) for c, t in zip(cols, ts)]
            elif k == "month":
                req[k] = [h.int("month", 1, 12)]
                cols = [h.and_(c, h.civil(t)[1] == req[k][0]) for c, t in zip(cols, ts)]
            elif k == "hour":
                req[k] = [h.int("hour{}".format(i), 0, 23) for i in range(2)]
                cols = [h.and_(c, h.or_(*[t % 86400 // 3600 == x for x in req[k]])) for c, t in zip(cols, ts)]
            elif k == "time":
                x = h.int("time", LO, HI)
                req[k] = [h.datetime_of(x)]
                cols = [h.and_(c, t == x) for c, t in zip(cols, ts)]
            elif k == "nothing":
                req["variable"] = []
                rows = [False] * n
        return req, rows, cols

    def check_part(h, got, orig, chosen, label):
        """The part holds exactly the chosen of the stored values, at the right places, and nothing without values."""
        metas, secs, rows = got
        ometas, osecs, orows = orig
        n, m = len(ometas), len(osecs)
        at = [[k for k, x in enumerate(metas) if same_meta(x, om)] for om in ometas]
        h.check(sum(len(a) for a in at) == len(metas), label + ": only given metadata")
        h.check(all(len(a) <= 1 for a in at), label + ": metadata once")
        for j in range(1, len(secs)):
            h.check(secs[j - 1] < secs[j], label + ": times in order")
        # which result column is original column j?
        used = []
        for j in range(m):
            hits = [k for k in range(len(secs)) if bool(secs[k] == osecs[j])]
            h.check(len(hits) <= 1, label + ": times once")
            used.append(hits[0] if hits else None)
        h.check(sum(u is not None for u in used) == len(secs), label + ": only given times")
        for i in range(n):
            full = h.or_(False, *[chosen[i][j] for j in range(m) if not isnan(orows[i][j])])
            h.check(h.iff(bool(at[i]), full), label + ": timeseries {} stays exactly if it has values".format(i))
        for j in range(m):
            full = h.or_(False, *[chosen[i][j] for i in range(n) if not isnan(orows[i][j])])
            h.check(h.iff(used[j] is not None, full), label + ": time {} stays exactly if it has values".format(j))
        for i in range(n):
            for j in range(m):
                there = bool(at[i]) and used[j] is not None and not isnan(rows[at[i][0]][used[j]])
                want = chosen[i][j] if not isnan(orows[i][j]) else False
                h.check(h.iff(there, want), label + ": value {},{}".format(i, j))
                if there and not isnan(orows[i][j]):
                    h.eq(rows[at[i][0]][used[j]], orows[i][j], label + ": value {},{} unaltered".format(i, j))

    shapes = [(2, 1, [(0, 0)]), (2, 2, [(0, 1), (1, 0)]), (3, 2, [(0, 0), (2, 1)])] + ([] if quick else [(3, 3, [(0, 0), (1, 1), (2, 1)])])
    for n, m, where in shapes:
        @case(cs, name="partition_{}x{}".format(n, m), time=200 if quick else 900, max_paths=5000, conc=40,
              bounds="{} timeseries of any values at {} times (any seconds of 1500 to 2500), values missing at any of {}; filters by columns, level, year, month, hour, time and combinations".format(n, m, where))
        def partition(h, n=n, m=m, where=where):
            ts = times(h, m)
            values = gaps(h, "v", n, m, where)
            df = make(h, values, ts, {k: v[:n] for k, v in META.items()})
            orig = read(h, df, "original")
            req, rows, cols = request(h, ts, n)
            kept = df.filter(**dict(req))
            same(h, read(h, df, "original"), orig, "original after keeping")
            dropped = df.filter(keep=False, **dict(req))
            same(h, read(h, df, "original"), orig, "original after dropping")
            sel = [[h.and_(r, c) for c in cols] for r in rows]
            check_part(h, read(h, kept, "kept"), orig, sel, "kept")
            check_part(h, read(h, dropped, "dropped"), orig, [[h.not_(x) for x in r] for r in sel], "dropped")

    for n, m, where in shapes[:2] if quick else shapes[:3]:
        @case(cs, name="inplace_{}x{}".format(n, m), time=200 if quick else 900, max_paths=5000, conc=40,
              bounds="as partition_{}x{}, filtered in place, and then once more by another filter".format(n, m))
        def inplace(h, n=n, m=m, where=where):
            ts = times(h, m)
            values = gaps(h, "v", n, m, where)
            meta = {k: v[:n] for k, v in META.items()}
            df, other = make(h, values, ts, meta), make(h, values, ts, meta)
            req, rows, cols = request(h, ts, n)
            keep = h.flag("keep")
            r = df.filter(keep=keep, **dict(req))
            res = other.filter(keep=keep, inplace=True, **dict(req))
            h.check(res is None, "in place returns nothing")
            a = read(h, r, "copy")
            same(h, read(h, other, "in place"), a, "in place equals copy")
            # again
            by = h.choice("again", ["variable", "year", "level"] if n == 2 and m == 1 else ["variable"])
            if by == "year":
                y = h.int("again year", 1500, 2500)
                again = r.filter(year=y)
                sel = [[h.civil(t)[0] == y for t in a[1]] for _ in a[0]]
            elif by == "level":
                again = r.filter(level="1+")
                sel = [["|" in x["variable"]] * len(a[1]) for x in a[0]]
            else:
                again = r.filter(variable="a*")
                sel = [[x["variable"].startswith("a")] * len(a[1]) for x in a[0]]
            check_part(h, read(h, again, "again"), a, sel, "again")

    @case(cs, name="independent", time=60, max_paths=300, conc=20, bounds="2 timeseries at 2 times; writing metadata or times of the filtered frame")
    def independent(h):
        ts = times(h, 2)
        df = make(h, gaps(h, "v", 2, 2), ts, {k: v[:2] for k, v in META.items()})
        orig = read(h, df, "original")
        r = df.filter(**h.choice("by", [{}, {"variable": "a"}, {"variable": "*b"}]))
        was = read(h, r, "result")
        what = h.choice("what", ["meta", "time", "filter", "original meta", "original filter"])
        if what == "meta":
            r["scenario"] = "new"
        elif what == "time":
            r["time"] = h.dts([h.dt64_of(t + 1) for t in ts])
        elif what == "filter":
            r.filter(variable="nothing", inplace=True)
        elif what == "original meta":
            df["scenario"] = "new"
        else:
            df.filter(variable="a|b", inplace=True)
        if what.startswith("original"):
            same(h, read(h, r, "result"), was, "result after changes of the original")
        else:
            same(h, read(h, df, "original"), orig, "original after changes of the result")

    return cs
