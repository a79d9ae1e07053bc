"""C15: metadata filters match exactly the described names."""
import numpy as np
import pandas as pd

from symex.runner import case

from .frames import column, wild

SPECIAL = "*|.+()$?[]^{}\\\nab"


def matches(h, r):
    return [bool(x) for x in np.asarray(r)]


def cases(tier):
    cs = []
    quick = tier == "quick"

    def match(h, *a, **k):
        return matches(h, h.mod("scmdataframe.filters").pattern_match(*a, **k))

    for n, alphabet, vmax in ((1, SPECIAL, 3), (2, SPECIAL, 2 if quick else 3), (3, "*|.$[ab", 3), (4, "*|a", 4)) + (() if quick else ((5, "*|a", 5),)):
        @case(cs, name="wildcards_{}".format(n), time=120 if quick else 900, max_paths=20000, conc=20,
              bounds="any pattern of {} characters of {!r}, any value of up to {} of them".format(n, alphabet, vmax))
        def wildcards(h, n=n, alphabet=alphabet, vmax=vmax):
            p = h.string("pattern", alphabet, n, n)
            v = h.string("value", alphabet.replace("*", "") + "*", 0, vmax)
            r = match(h, column(h, [v]), p)
            h.check(h.iff(r[0], wild(h, p, v)), "match of pattern")

    @case(cs, name="empty_pattern", time=30, max_paths=50, conc=5, bounds="the empty pattern, any value of up to 2 characters")
    def empty_pattern(h):
        v = h.string("value", "a*\n|", 0, 2)
        r = match(h, column(h, [v]), "")
        h.check(h.iff(r[0], h.len(v) == 0), "only the empty text")

    @case(cs, name="unions", time=100, max_paths=5000, conc=20,
          bounds="0 to 2 patterns of 1 to 2 characters of '*|a', as list or tuple, and values of up to 2 and 1 characters")
    def unions(h):
        k = int(h.int("k", 0, 2))
        ps = [h.string("p{}".format(i), "*|a", 1, 2 - i if quick else 2) for i in range(k)]
        vs = [h.string("v{}".format(i), "|a", 0, 2 - i) for i in range(2)]
        r = match(h, column(h, vs), h.choice("as", [list, tuple])(ps))
        for v, x in zip(vs, r):
            h.check(h.iff(x, h.or_(False, *[wild(h, p, v) for p in ps])), "union of the patterns")

    @case(cs, name="missing", time=60, max_paths=1000, conc=20,
          bounds="missing values (NaN, None) next to a text of up to 2 characters, patterns of up to 2 characters of '*|a'")
    def missing(h):
        p = h.string("p", "*|a", 0, 2)
        v = h.string("v", "|a", 0, 2)
        gap = h.choice("gap", [float("nan"), None, np.float64("nan")])
        first = h.flag("first")
        r = match(h, column(h, [gap, v] if first else [v, gap]), p)
        h.check(h.iff(r[0 if first else 1], wild(h, p, "")), "missing counts as empty text")
        h.check(h.iff(r[1 if first else 0], wild(h, p, v)), "others match as usual")

    @case(cs, name="numbers", time=30, max_paths=300, conc=20, bounds="columns of 3 integers or reals, filtered by one, two or no number")
    def numbers(h):
        make = h.int if h.flag("integers") else h.real
        vs = [make("v{}".format(i), -3, 3) for i in range(3)]
        k = int(h.int("k", 0, 2))
        ws = [make("w{}".format(i), -3, 3) for i in range(k)]
        f = h.choice("as", ["list", "one"])
        h.assume(f == "list" or k == 1)
        r = match(h, column(h, vs), ws if f == "list" else ws[0])
        for v, x in zip(vs, r):
            h.check(h.iff(x, h.or_(False, *[v == w for w in ws])), "equal to one of the numbers")

    def codes(h, s):
        return [h.code(s, i) for i in range(h.len(s))]

    def prefix(h, text, v, at=0):
        if at + len(text) > h.len(v):
            return False
        return h.and_(True, *[h.code(v, at + i) == ord(c) for i, c in enumerate(text)])

    REGEX = {
        "a|b": lambda h, v: h.or_(prefix(h, "a", v), prefix(h, "b", v)),
        "a.": lambda h, v: h.and_(prefix(h, "a", v), h.len(v) > 1 and h.not_(h.code(v, 1) == 10)),
        "a*$": lambda h, v: h.or_(h.and_(True, *[c == 97 for c in codes(h, v)]), h.and_(h.len(v) > 0 and codes(h, v)[-1] == 10, *[c == 97 for c in codes(h, v)[:-1]])),
        r"a\|b": lambda h, v: prefix(h, "a|b", v),
        "^[ab][*]": lambda h, v: h.and_(h.len(v) > 1, h.or_(prefix(h, "a", v), prefix(h, "b", v)), prefix(h, "*", v, 1)),
        "": lambda h, v: True,
        "(a|b)b+$": lambda h, v: h.and_(h.len(v) > 1, h.or_(prefix(h, "a", v), prefix(h, "b", v)), *[c == 98 for c in codes(h, v)[1:]]) if h.len(v) < 3 else
        h.and_(h.or_(prefix(h, "a", v), prefix(h, "b", v)), *([c == 98 for c in codes(h, v)[1:-1]] + [h.or_(codes(h, v)[-1] == 98, codes(h, v)[-1] == 10)])),
    }

    @case(cs, name="regular_expressions", time=60, max_paths=500, conc=20, bounds="regular expressions {}, any value of up to 3 characters of 'ab*|' and newline".format(", ".join(REGEX)))
    def regular_expressions(h):
        e = h.choice("regexp", sorted(REGEX))
        v = h.string("v", "ab*|\n", 0, 3)
        r = match(h, column(h, [v]), e if h.flag("one") else [e], regexp=True)
        h.check(h.iff(r[0], REGEX[e](h, v)), "regular expression from the start")

    def depth_ok(h, kind, level, d):
        return {"": d == level, "+": d >= level, "-": d <= level}[kind]

    for n in (0, 1, 2) if quick else (0, 1, 2, 3):
        @case(cs, name="levels_{}".format(n), time=100 if quick else 900, max_paths=10000, conc=20,
              bounds="any pattern of {} characters of '|.a', with or without '*' at the end, any value of up to {} characters of '|.a', levels 0 to 2 exactly, at most and at least".format(n, (3 if quick else 4) + (n > 0)))
        def levels(h, n=n, top=(3 if quick else 4) + (n > 0)):
            lead = h.string("lead", "|.a", n, n)
            star = h.flag("star")
            v = h.string("v", "|.a", 0, top)
            kind = h.choice("kind", ["", "+", "-"])
            level = h.choice("level", [0, 1, 2])
            r = match(h, column(h, [v]), lead + "*" if star else lead, level if kind == "" else "{}{}".format(level, kind))
            if not star or h.len(v) <= n:
                want = h.and_(h.len(v) == n, *[a == b for a, b in zip(codes(h, lead), codes(h, v))])
                d = 0
            else:
                want = h.and_(True, *[a == b for a, b in zip(codes(h, lead), codes(h, v))])
                d = 0
                for c in codes(h, v)[n:]:
                    d = d + h.ite(c == ord("|"), 1, 0)
            h.check(h.iff(r[0], h.and_(want, depth_ok(h, kind, level, d))), "match at level")

    @case(cs, name="bad_levels", time=20, max_paths=100, conc=5, bounds="unintelligible levels")
    def bad_levels(h):
        level = h.choice("level", ["1", "x", "1*", "a+", "+", "-", "1 "])
        v = h.string("v", "|a", 0, 2)
        h.raises(lambda: match(h, column(h, [v]), "*", level), "ValueError", "unknown level")

    return cs
