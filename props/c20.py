"""C20: appending frames loses, invents and mixes nothing."""
import warnings

from symex.runner import case

from .frames import gaps, isnan, make, missing, read, same

DAY = 86400
YEAR = 365 * DAY
T = [i * YEAR for i in range(4)]
NAN = float("nan")
FAR = [i * 400 * YEAR - 500 * YEAR for i in range(4)]  # 1470 to 2669


def key(m, names):
    return tuple((n, None if missing(m.get(n)) else m[n]) for n in sorted(names))


def cases(tier):
    cs = []
    quick = tier == "quick"

    def content(contents):
        """Metadata key -> time -> values of all inputs."""
        names = set(n for metas, _, _ in contents for m in metas for n in m)
        times = []
        out = {}
        for metas, secs, rows in contents:
            for t in secs:
                if int(t) not in times:
                    times.append(int(t))
            for m, r in zip(metas, rows):
                d = out.setdefault(key(m, names), {})
                for t, v in zip(secs, r):
                    if not isnan(v):
                        d.setdefault(int(t), []).append(v)
        return names, sorted(times), out

    def check_result(h, contents, res, label="result"):
        names, times, want = content(contents)
        metas, secs, rows = read(h, res, label)
        h.check([int(t) for t in secs] == times, label + ": times")
        h.check(all(set(m) == names for m in metas), label + ": metadata names")
        keys = [key(m, names) for m in metas]
        h.check(len(set(keys)) == len(keys) and set(keys) == set(want), label + ": timeseries")
        for k, r in zip(keys, rows):
            for t, v in zip(times, r):
                vs = want.get(k, {}).get(t, [])
                if vs:
                    h.check(not isnan(v), label + ": a value where there are any")
                    h.eq(v, sum(vs) / len(vs), label + ": values")
                else:
                    h.check(isnan(v), label + ": no value where there are none")
        return any(len(vs) > 1 for d in want.values() for vs in d.values())

    def append(h, dfs, how, msg="warn"):
        base = h.mod("scmdataframe.base")
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            k = {} if msg == "warn" else {"duplicate_msg": msg}
            if how == "function":
                r = base.df_append(dfs, **k)
            elif how == "inplace function":
                h.check(base.df_append(dfs, inplace=True, **k) is None, "nothing returned")
                r = dfs[0]
            elif how == "method":
                r = dfs[0].append(dfs[1], **k)
            else:
                h.check(dfs[0].append(dfs[1], inplace=True, **k) is None, "nothing returned")
                r = dfs[0]
        return r, any("Duplicate time points" in str(w.message) for w in caught)

    HOWS = ["function", "inplace function", "method", "inplace method"]

    def run(h, dfs, how, msg="warn"):
        contents = [read(h, d, "input {}".format(i)) for i, d in enumerate(dfs)]
        r, warned = append(h, dfs, how, msg)
        dup = check_result(h, contents, r)
        h.check(warned == (dup and msg == "warn"), "warning about duplicates")
        for i, d in enumerate(dfs):
            if i or "inplace" not in how:
                h.check(d is not r, "a new frame")
                same(h, read(h, d, "input {} after".format(i)), contents[i], "input {} after".format(i))

    overlaps = {"same": ([0, 1], [0, 1]), "apart": ([0, 1], [2, 3]), "before": ([2, 3], [0, 1]), "overlapping": ([0, 1, 2], [1, 3]), "interleaved": ([0, 2], [1, 3]),
                "around": ([1, 2], [0, 3])}

    @case(cs, name="times", time=200 if quick else 900, max_paths=4000, conc=40,
          bounds="two frames of one timeseries, equal or different in variable, at 6 kinds of overlaps of up to 4 times (1970s or 1470 to 2669), any values or missing at one shared time; as function or method, in place or not, with or without warning")
    def times(h):
        grid = FAR if h.flag("far") else T
        a, b = overlaps[h.choice("overlap", sorted(overlaps))]
        va = gaps(h, "a", 1, len(a), [(0, len(a) - 1)])
        vb = gaps(h, "b", 1, len(b), [(0, 0)])
        equal = h.flag("equal")
        A = make(h, va, [grid[i] for i in a], {"variable": ["v"]})
        B = make(h, vb, [grid[i] for i in b], {"variable": ["v" if equal else "u"]})
        run(h, [A, B], h.choice("how", HOWS), h.choice("msg", ["warn", False]))

    EXTRA = {"none": None, "text": ["p", "q"], "numbers": [1.0, -999], "partly": ["p", NAN], "partly numbers": [NAN, 2], "none values": [None, "x"], "integers": [-999, -1000], "flags": [True, False]}

    @case(cs, name="metadata", time=250 if quick else 900, max_paths=4000, conc=40,
          bounds="two frames of two timeseries, of which none, one or both have equal metadata, any values; no extra metadata columns or equal or different ones holding texts, numbers (also -999), flags or missing entries")
    def metadata(h):
        ea, eb = h.choice("extra a", sorted(EXTRA)), h.choice("extra b", sorted(EXTRA))
        other = h.flag("other name") if ea != "none" and eb != "none" else False
        va, vb = gaps(h, "a", 2, 2), gaps(h, "b", 2, 2)
        ma, mb = {"variable": ["u", "v"]}, {"variable": h.choice("variables", [["u", "v"], ["v", "u"], ["v", "w"], ["w", "x"]])}
        if EXTRA[ea] is not None:
            ma["extra"] = EXTRA[ea]
        if EXTRA[eb] is not None:
            mb["other" if other else "extra"] = EXTRA[eb]
        run(h, [make(h, va, T[:2], ma), make(h, vb, T[1:3], mb)], h.choice("how", ["function", "inplace method"]))

    @case(cs, name="three", time=250 if quick else 900, max_paths=4000, conc=40,
          bounds="three frames in any order: equal, partly equal or different metadata, overlapping times, any values or missing; the content is the same in every order")
    def three(h):
        perm = h.permutation("order", [0, 1, 2])
        v = [gaps(h, n, 1, 2, [(0, 1)] if n == "b" else None) for n in "abc"]
        k = h.choice("variables", ["uuu", "uuv", "uvu", "uvw"])
        ex = h.choice("extra", ["", "a", "bc", "abc"])
        ts = [[T[0], T[1]], [T[1], T[2]], h.choice("third", [[T[1], T[3]], [T[0], T[1]]])]
        dfs = []
        for i, n in enumerate("abc"):
            m = {"variable": [k[i]]}
            if n in ex:
                m["extra"] = [n if len(ex) < 3 else "e"]
            dfs.append(make(h, v[i], ts[i], m))
        run(h, [dfs[i] for i in perm], h.choice("how", ["function", "inplace function"]))

    @case(cs, name="alone", time=60, max_paths=300, conc=20, bounds="one frame of two timeseries with or without gaps and missing metadata")
    def alone(h):
        v = gaps(h, "a", 2, 2, [(0, 0), (1, 0), (1, 1)])
        m = {"variable": ["v", "u"]}
        e = EXTRA[h.choice("extra", sorted(EXTRA))]
        if e is not None:
            m["extra"] = e
        run(h, [make(h, v, T[:2], m)], h.choice("how", ["function", "inplace function"]))

    @case(cs, name="refused", time=60, max_paths=100, conc=20, bounds="unknown options with duplicates; appending in place to something that is no frame; returning duplicates")
    def refused(h):
        base = h.mod("scmdataframe.base")
        va, vb = gaps(h, "a", 1, 2), gaps(h, "b", 1, 2)
        A, B = make(h, va, T[:2], {}), make(h, vb, T[1:3], {})
        ca, cb = read(h, A, "a"), read(h, B, "b")
        what = h.choice("what", ["unknown", "return", "in place"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if what == "unknown":
                inplace = h.flag("inplace")
                h.raises(lambda: base.df_append([A, B], inplace=inplace, duplicate_msg="other"), "ValueError", "unknown option")
            elif what == "in place":
                h.raises(lambda: base.df_append([A.timeseries().reset_index(), B], inplace=True), "TypeError", "no frame")
            else:
                r = A.append(B, duplicate_msg="return")
                h.check(len(r) == 2, "the duplicates are returned")
        same(h, read(h, A, "a"), ca, "a")
        same(h, read(h, B, "b"), cb, "b")

    return cs
