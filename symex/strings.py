"""Bounded symbolic strings: a concrete length, symbolic characters; every constant text can be lifted."""
import re
import sre_constants as sc
import sre_parse

import numpy as np
import z3

from .core import EngineLimit, PathEnd, Sym, SymBool, SymInt, SymReal, ctx, mkbool, mknum, simp, to_real, zbool


def ch(c):
    return z3.IntVal(ord(c))


class SymStr(Sym):
    """Characters are z3 Ints (code points)."""

    __slots__ = ("c",)
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, chars):
        self.c = tuple(chars)

    @staticmethod
    def of(s):
        if isinstance(s, SymStr):
            return s
        if isinstance(s, str):
            return SymStr(ch(x) for x in s)
        return None

    # -- basics
    def concrete(self):
        """The text if all characters are numerals, else None."""
        r = []
        for e in self.c:
            if not z3.is_int_value(e):
                e = simp(e)
                if not z3.is_int_value(e):
                    return None
            r.append(chr(e.as_long()))
        return "".join(r)

    def __bool__(self):
        return len(self.c) > 0

    def symlen(self):
        return len(self.c)

    def __hash__(self):
        return 0

    def eq(self, o):
        o = SymStr.of(o)
        if o is None:
            return False
        if len(o.c) != len(self.c):
            return False
        if not self.c:
            return True
        return mkbool(z3.And([a == b for a, b in zip(self.c, o.c)]))

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        r = self.eq(o)
        return (not r) if isinstance(r, bool) else ~r

    def _lt(self, o, strict):
        a, b = self.c, SymStr.of(o).c
        r = z3.BoolVal((len(a) < len(b)) if strict else (len(a) <= len(b)))
        for x, y in reversed(list(zip(a, b))):
            r = z3.Or(x < y, z3.And(x == y, r))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o, True) if SymStr.of(o) is not None else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if SymStr.of(o) is not None else NotImplemented

    def __gt__(self, o):
        return SymStr.of(o)._lt(self, True) if SymStr.of(o) is not None else NotImplemented

    def __ge__(self, o):
        return SymStr.of(o)._lt(self, False) if SymStr.of(o) is not None else NotImplemented

    def __add__(self, o):
        o = SymStr.of(o)
        return NotImplemented if o is None else SymStr(self.c + o.c)

    def __radd__(self, o):
        o = SymStr.of(o)
        return NotImplemented if o is None else SymStr(o.c + self.c)

    def __mul__(self, n):
        return SymStr(self.c * int(n))

    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr(self.c[k])
        return SymStr((self.c[int(k)],))

    def __iter__(self):
        for x in self.c:
            yield SymStr((x,))

    def __contains__(self, o):
        return bool(self.contains(o))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        c = self.concrete()
        return "<symstr {}>".format(c if c is not None else "len {}".format(len(self.c)))

    def __str__(self):
        c = self.concrete()
        return c if c is not None else repr(self)

    def __format__(self, spec):
        return str(self)

    def __cast_number__(self, t):
        c = self.concrete()
        if c is None:
            v = self.number()
            return SymReal(simp(to_real(v.e))) if np.dtype(t).kind == "f" else v
        return np.dtype(t).type(c)

    def number(self):
        """The number written as decimal digits with an optional decimal point."""
        known = ctx().cache.get("digits", {}).get(tuple(c.get_id() for c in self.c))
        if known is not None:
            return SymInt(known)
        if 46 in [c.as_long() for c in self.c if z3.is_int_value(c)]:
            i = [c.as_long() if z3.is_int_value(c) else None for c in self.c].index(46)
            known = [ctx().cache.get("digits", {}).get(tuple(c.get_id() for c in cs)) for cs in (self.c[:i], self.c[i + 1:])]
            if known[0] is not None and known[1] is not None:
                return SymReal(simp(to_real(known[0]) + to_real(known[1]) / z3.RealVal(10 ** (len(self.c) - i - 1))))
        whole, frac, point = z3.IntVal(0), z3.RealVal(0), None
        for i, c in enumerate(self.c):
            if ctx().branch(z3.And(c >= 48, c <= 57)):
                if point is None:
                    whole = whole * 10 + (c - 48)
                else:
                    frac = frac + to_real(c - 48) / z3.RealVal(10 ** (i - point))
            elif point is None and ctx().branch(c == 46):
                point = i
            elif i > 0 and ctx().branch(z3.Or(c == 45, c == 47, c == 58, c == 84)) and not ctx().branch(z3.Or(self.c[i - 1] == 101, self.c[i - 1] == 69)):
                raise ValueError("could not convert string to float")  # - / : T between other characters
            else:
                raise EngineLimit("number from symbolic text")
        if point is None:
            return SymInt(simp(whole))
        return SymReal(simp(to_real(whole) + frac))

    def iso_instant(self):
        """Seconds of a text YYYY-MM-DD[( |T)HH[:MM[:SS]]] (ValueError otherwise)."""
        from .dt import make_datetime

        c, n = self.c, len(self.c)
        if n not in (10, 16, 19):
            raise EngineLimit("date text of length {}".format(n))
        for i, seps in ((4, "-"), (7, "-"), (10, " T"), (13, ":"), (16, ":")):
            if i < n and not ctx().branch(z3.Or([c[i] == ord(x) for x in seps])):
                raise EngineLimit("date text in another form")
        num = lambda a, b: SymStr(c[a:b]).number()
        y, m, d = num(0, 4), num(5, 7), num(8, 10)
        h, mi, s = num(11, 13) if n > 10 else 0, num(14, 16) if n > 10 else 0, num(17, 19) if n > 16 else 0
        if n > 10 and not ((h < 24) & (mi < 60) & (s < 60)):
            raise ValueError("hour, minute or second out of range")
        return make_datetime(y, m, d, h, mi, s)

    # -- searching
    def _at(self, o, i):
        """z3 Bool: o occurs at concrete position i."""
        if i < 0 or i + len(o.c) > len(self.c):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [a == b for a, b in zip(self.c[i:], o.c)])

    def contains(self, o):
        o = SymStr.of(o)
        if o is None:
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Or([z3.BoolVal(False)] + [self._at(o, i) for i in range(len(self.c) - len(o.c) + 1)]))

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return mkbool(z3.Or([z3.BoolVal(False)] + [zbool(self.startswith(x)) for x in p]))
        return mkbool(self._at(SymStr.of(p), start))

    def endswith(self, p):
        if isinstance(p, tuple):
            return mkbool(z3.Or([z3.BoolVal(False)] + [zbool(self.endswith(x)) for x in p]))
        p = SymStr.of(p)
        return mkbool(self._at(p, len(self.c) - len(p.c)))

    def find(self, o, start=0, end=None):
        o = SymStr.of(o)
        stop = len(self.c) if end is None else end
        for i in range(start, stop - len(o.c) + 1):
            if ctx().branch(self._at(o, i)):
                return i
        return -1

    def rfind(self, o):
        o = SymStr.of(o)
        for i in range(len(self.c) - len(o.c), -1, -1):
            if ctx().branch(self._at(o, i)):
                return i
        return -1

    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, o):
        o = SymStr.of(o)
        if len(o.c) == 1:
            return mknum(z3.Sum([z3.IntVal(0)] + [z3.If(x == o.c[0], 1, 0) for x in self.c]))
        n, i = 0, 0
        while i + len(o.c) <= len(self.c):
            if ctx().branch(self._at(o, i)):
                n += 1
                i += max(len(o.c), 1)
            else:
                i += 1
        return n

    def _positions(self, o, limit=-1):
        r, i = [], 0
        if not o.c:
            raise EngineLimit("empty search text")
        while i + len(o.c) <= len(self.c) and (limit < 0 or len(r) < limit):
            if ctx().branch(self._at(o, i)):
                r.append(i)
                i += len(o.c)
            else:
                i += 1
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [x for x in self._split_ws()]
        o = SymStr.of(sep)
        if not o.c:
            raise ValueError("empty separator")
        r, last = [], 0
        for p in self._positions(o, maxsplit):
            r.append(SymStr(self.c[last:p]))
            last = p + len(o.c)
        r.append(SymStr(self.c[last:]))
        return r

    def _split_ws(self):
        out, cur = [], []
        for x in self.c:
            if ctx().branch(_isspace(x)):
                if cur:
                    out.append(SymStr(cur))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(SymStr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        o = SymStr.of(sep)
        ps = []
        i = len(self.c) - len(o.c)
        while i >= 0 and len(ps) < maxsplit:
            if ctx().branch(self._at(o, i)):
                ps.append(i)
                i -= len(o.c)
            else:
                i -= 1
        r, last = [], 0
        for p in reversed(ps):
            r.append(SymStr(self.c[last:p]))
            last = p + len(o.c)
        r.append(SymStr(self.c[last:]))
        return r

    def partition(self, sep):
        i = self.find(sep)
        o = SymStr.of(sep)
        if i < 0:
            return (self, SymStr(()), SymStr(()))
        return (SymStr(self.c[:i]), o, SymStr(self.c[i + len(o.c):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        o = SymStr.of(sep)
        if i < 0:
            return (SymStr(()), SymStr(()), self)
        return (SymStr(self.c[:i]), o, SymStr(self.c[i + len(o.c):]))

    def replace(self, a, b, count=-1):
        a, b = SymStr.of(a), SymStr.of(b)
        if not a.c:
            # inserts b between all characters
            if count == 0:
                return self
            r = []
            n = 0
            for x in self.c:
                if count < 0 or n < count:
                    r += b.c
                    n += 1
                r.append(x)
            if count < 0 or n < count:
                r += b.c
            return SymStr(r)
        if len(a.c) == 1 and len(b.c) == 1 and count < 0:
            return SymStr(simp(z3.If(x == a.c[0], b.c[0], x)) for x in self.c)
        r, last = [], 0
        for p in self._positions(a, count):
            r += self.c[last:p]
            r += b.c
            last = p + len(a.c)
        r += self.c[last:]
        return SymStr(r)

    def translate(self, table):
        r = []
        for x in self.c:
            for k, v in table.items():
                if ctx().branch(x == k):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        r.append(z3.IntVal(v))
                    else:
                        r += SymStr.of(v).c
                    break
            else:
                r.append(x)
        return SymStr(r)

    def lower(self):
        return SymStr(simp(z3.If(z3.And(x >= 65, x <= 90), x + 32, x)) for x in self.c)

    casefold = lower

    def upper(self):
        return SymStr(simp(z3.If(z3.And(x >= 97, x <= 122), x - 32, x)) for x in self.c)

    def _strip_test(self, chars):
        if chars is None:
            return _isspace
        cs = SymStr.of(chars).c
        return lambda x: z3.Or([x == y for y in cs] + [z3.BoolVal(False)])

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.c) and ctx().branch(t(self.c[i])):
            i += 1
        return SymStr(self.c[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.c)
        while i > 0 and ctx().branch(t(self.c[i - 1])):
            i -= 1
        return SymStr(self.c[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        p = SymStr.of(p)
        return SymStr(self.c[len(p.c):]) if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        p = SymStr.of(p)
        return SymStr(self.c[:len(self.c) - len(p.c)]) if p.c and bool(self.endswith(p)) else self

    def join(self, items):
        return join(self, items)

    def isdigit(self):
        return bool(self.c) and mkbool(z3.And([z3.And(x >= 48, x <= 57) for x in self.c]))


def _isspace(x):
    return z3.Or(x == 32, z3.And(x >= 9, x <= 13))


def join(sep, items):
    items = [SymStr.of(x) for x in items]
    if any(x is None for x in items):
        raise TypeError("sequence item: expected str instance")
    sep = SymStr.of(sep)
    r = []
    for i, x in enumerate(items):
        if i:
            r += sep.c
        r += x.c
    return SymStr(r)


def format_(fmt, args, kwargs):
    """str.format with symbolic text arguments (plain fields only)."""
    import string

    r = SymStr(())
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        r = r + SymStr.of(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kwargs[field]
        else:
            v = string.Formatter().get_field(field, args, kwargs)[0]
        if isinstance(v, SymStr) and not spec and conv in (None, "s"):
            r = r + v
        else:
            r = r + SymStr.of(("{%s:%s}" % ("!" + conv if conv else "", spec or "")).format(v))
    return r


# ---------------------------------------------------------------------------------------
# regular expressions

SPECIAL = "\\.^$*+?{}[]|()"
PUA = 0xE000


class SymPattern:
    """Compiled regular expression whose literals may be symbolic characters."""

    def __init__(self, tree, lits, flags, text):
        self.tree = tree
        self.lits = lits
        self.flags = flags
        self.pattern = text

    def _match(self, s, start, full):
        s = SymStr.of(s)
        if s is None:
            raise TypeError("expected string or bytes-like object")
        m = Matcher(s, self.lits, self.flags)
        return m.seq(list(self.tree), 0, {start: z3.BoolVal(True)}), s

    def match(self, s, pos=0):
        ends, s = self._match(s, pos, False)
        return _symmatch(mkbool(z3.Or([z3.BoolVal(False)] + list(ends.values()))), self, s)

    def fullmatch(self, s):
        ends, s = self._match(s, 0, True)
        return _symmatch(mkbool(ends.get(len(s.c), z3.BoolVal(False))), self, s)

    def search(self, s):
        s = SymStr.of(s)
        if s is None:
            raise TypeError("expected string or bytes-like object")
        alts = [z3.BoolVal(False)]
        for i in range(len(s.c) + 1):
            ends, _ = self._match(s, i, False)
            alts += list(ends.values())
        return _symmatch(mkbool(z3.Or(alts)), self, s)

    def findall(self, s):
        """Only for patterns that are a plain literal."""
        lit = self.literal()
        if lit is None:
            raise EngineLimit("findall of a general pattern")
        s = SymStr.of(s)
        return [lit for _ in s._positions(lit)]

    def finditer(self, s):
        return iter(self.findall(s))

    def split(self, s, maxsplit=0):
        lit = self.literal()
        if lit is None:
            raise EngineLimit("split by a general pattern")
        return SymStr.of(s).split(lit, maxsplit if maxsplit else -1)

    def sub(self, repl, s, count=0):
        lit = self.literal()
        if lit is None or not isinstance(repl, (str, SymStr)):
            raise EngineLimit("sub of a general pattern")
        return SymStr.of(s).replace(lit, repl, count if count else -1)

    def literal(self):
        cs = []
        for op, av in self.tree:
            if op is not sc.LITERAL:
                return None
            cs.append(lit_expr(av, self.lits))
        return SymStr(cs) if cs else None


class SymMatch:
    def __init__(self, pattern, s):
        self.re = pattern
        self.string = s

    def group(self, *a):
        raise EngineLimit("match group")

    groups = span = start = end = group


def _symmatch(cond, pattern, s):
    return SymMatch(pattern, s) if bool(cond) else None


def lit_expr(av, lits):
    return lits[av - PUA] if PUA <= av < PUA + len(lits) else z3.IntVal(av)


class Matcher:
    """Set-of-end-positions matcher: start positions with conditions -> end positions with conditions."""

    def __init__(self, s, lits, flags):
        self.s = s.c
        self.lits = lits
        self.flags = flags

    def seq(self, items, i, starts):
        cur = starts
        for op, av in items:
            cur = self.step(op, av, cur)
            cur = {p: c for p, c in ((p, simp(c)) for p, c in cur.items()) if not z3.is_false(c)}
            if not cur:
                return {}
        return cur

    def char(self, cur, test):
        r = {}
        for p, c in cur.items():
            if p < len(self.s):
                r[p + 1] = z3.And(c, test(self.s[p]))
        return r

    def merge(self, a, b):
        r = dict(a)
        for p, c in b.items():
            r[p] = z3.Or(r[p], c) if p in r else c
        return r

    def litcmp(self, x, av):
        e = lit_expr(av, self.lits)
        if self.flags & re.IGNORECASE:
            low = lambda y: z3.If(z3.And(y >= 65, y <= 90), y + 32, y)
            return low(x) == low(e)
        return x == e

    def in_set(self, x, av):
        neg, alts = False, []
        for op, a in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                alts.append(self.litcmp(x, a))
            elif op is sc.RANGE:
                alts.append(z3.And(x >= a[0], x <= a[1]))
            elif op is sc.CATEGORY:
                alts.append(category(x, a))
            else:
                raise EngineLimit("regex set {}".format(op))
        r = z3.Or([z3.BoolVal(False)] + alts)
        return z3.Not(r) if neg else r

    def step(self, op, av, cur):
        if op is sc.LITERAL:
            return self.char(cur, lambda x: self.litcmp(x, av))
        if op is sc.NOT_LITERAL:
            return self.char(cur, lambda x: z3.Not(self.litcmp(x, av)))
        if op is sc.ANY:
            return self.char(cur, lambda x: z3.BoolVal(True) if self.flags & re.DOTALL else x != 10)
        if op is sc.IN:
            return self.char(cur, lambda x: self.in_set(x, av))
        if op is sc.AT:
            n = len(self.s)
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return {p: c for p, c in cur.items() if p == 0}
            if av is sc.AT_END_STRING:
                return {p: c for p, c in cur.items() if p == n}
            if av is sc.AT_END:
                r = {}
                for p, c in cur.items():
                    if p == n:
                        r[p] = c
                    elif p == n - 1:
                        r[p] = z3.And(c, self.s[p] == 10)
                return r
            raise EngineLimit("regex anchor {}".format(av))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = min(int(hi), len(self.s) + 1)
            res = dict(cur) if lo == 0 else {}
            k = 0
            while k < max(hi, int(lo)):
                k += 1
                cur = self.seq(list(sub), 0, cur)
                if not cur:
                    break
                if k >= lo:
                    res = self.merge(res, cur)
                if k > len(self.s) + 1:
                    break
            return res
        if op is sc.SUBPATTERN:
            return self.seq(list(av[-1]), 0, cur)
        if op is sc.BRANCH:
            r = {}
            for b in av[1]:
                r = self.merge(r, self.seq(list(b), 0, cur))
            return r
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] != 1:
                raise EngineLimit("look-behind")
            r = {}
            for p, c in cur.items():
                e = self.seq(list(av[1]), 0, {p: z3.BoolVal(True)})
                t = z3.Or([z3.BoolVal(False)] + list(e.values()))
                r[p] = z3.And(c, t if op is sc.ASSERT else z3.Not(t))
            return r
        raise EngineLimit("regex {}".format(op))


def category(x, a):
    digit = z3.And(x >= 48, x <= 57)
    word = z3.Or(digit, z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122), x == 95)
    return {
        sc.CATEGORY_DIGIT: digit, sc.CATEGORY_NOT_DIGIT: z3.Not(digit),
        sc.CATEGORY_WORD: word, sc.CATEGORY_NOT_WORD: z3.Not(word),
        sc.CATEGORY_SPACE: _isspace(x), sc.CATEGORY_NOT_SPACE: z3.Not(_isspace(x)),
    }[a]


def compile_pattern(p, flags=0):
    """re.compile of a symbolic text: fork on every character being special, then parse."""
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, re.Pattern):
        return SymPattern(list(sre_parse.parse(p.pattern, p.flags & ~re.UNICODE)), [], p.flags, p.pattern)
    if isinstance(p, str):
        return SymPattern(list(sre_parse.parse(p, flags)), [], flags, p)
    text, lits = [], []
    prev_escape = False
    for e in p.c:
        e = simp(e)
        if z3.is_int_value(e):
            text.append(chr(e.as_long()))
            prev_escape = (not prev_escape) and text[-1] == "\\"
            continue
        if prev_escape:
            # meaning of the escape depends on the character
            c = chr(ctx().fork_value(e))
            text.append(c)
            prev_escape = False
            continue
        for s in SPECIAL:
            if ctx().branch(e == ord(s)):
                text.append(s)
                prev_escape = s == "\\"
                break
        else:
            # inside a set or a repeat the character may be structural: decide it
            t = "".join(text)
            if "[" in t or "{" in t or "(?" in t or t.endswith("("):
                text.append(chr(ctx().fork_value(e)))
            else:
                text.append(chr(PUA + len(lits)))
                lits.append(e)
    t = "".join(text)
    tree = list(sre_parse.parse(t, flags))  # raises re.error like re.compile
    return SymPattern(tree, lits, flags, t)


def escape(p):
    r = []
    for e in SymStr.of(p).c:
        for s in "\\.^$*+?{}[]|()-&~# \t\n\r\v\f":
            if ctx().branch(e == ord(s)):
                r += [ch("\\"), ch(s)]
                break
        else:
            r.append(e)
    return SymStr(r)
