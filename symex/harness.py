"""
The two faces of a harness: symbolic (values are solver variables) and concrete (values come from a model).

A harness is a function of one argument `h`. It draws inputs, runs openscm code and states obligations. The same function
runs against the symbolically executed source and, in a separate process, against the unmodified package.
"""
import datetime
import importlib
import math
import random
from fractions import Fraction

import numpy as np
import z3

from . import core
from .arrays import SymNd, as_symnd, base, is_obj, scalar
from .core import EngineLimit, PathEnd, Sym, SymBool, SymInt, SymReal, _SymNum, mkbool, rval, simp, to_arith, to_real, zbool
from .dt import civil, SymDatetime, SymDT64, SymTD64, SymTimedelta, lift_time
from .strings import SymStr

TOL = 1e-6


class Excluded(BaseException):
    """Concrete run outside of the assumptions."""


class Failed(BaseException):
    """A concrete run that breaks an obligation."""

    def __init__(self, label, detail):
        self.label, self.detail = label, detail


def uniform(rng, lo, hi):
    """A float that is a short binary fraction, mostly."""
    if hi - lo > 64:
        return float(rng.randint(math.ceil(lo), math.floor(hi)))
    k = rng.randint(0, 64)
    return lo + (hi - lo) * k / 64


class HBase:
    symbolic = False

    def __init__(self):
        self.observations = []
        self.nchecks = 0

    def mod(self, name=""):
        return importlib.import_module("openscm" + ("." + name if name else ""))

    # -- inputs shared by both modes
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.index(name, len(options))]

    def flag(self, name):
        """A forked python bool."""
        return bool(self.index(name, 2))

    def word(self, text):
        return text

    def subset(self, name, options):
        return [o for i, o in enumerate(options) if self.flag("{}.{}".format(name, i))]

    def permutation(self, name, options):
        rest, out = list(options), []
        i = 0
        while len(rest) > 1:
            out.append(rest.pop(self.index("{}.{}".format(name, i), len(rest))))
            i += 1
        return out + rest

    def reals(self, name, n, lo=-1000, hi=1000):
        return [self.real("{}{}".format(name, i), lo, hi) for i in range(n)]

    def farray(self, name, n, lo=-1000, hi=1000):
        return self.floats(self.reals(name, n, lo, hi))

    def dt64(self, name, lo, hi, unit="s"):
        """lo, hi: numpy datetime64 or texts"""
        lo, hi = [int(np.datetime64(x).astype("datetime64[s]").astype(np.int64)) for x in (lo, hi)]
        return self.dt64_of(self.int(name, lo, hi))

    def increasing_dts(self, name, n, lo, hi, min_gap=1, max_gap=None):
        """n strictly increasing datetime64 values."""
        lo, hi = [int(np.datetime64(x).astype("datetime64[s]").astype(np.int64)) for x in (lo, hi)]
        cur = self.int(name + "0", lo, hi)
        out = [cur]
        for i in range(1, n):
            cur = cur + self.int(name + "_gap{}".format(i), min_gap, max_gap if max_gap else hi - lo)
            out.append(cur)
        if max_gap is None:
            self.assume(cur <= hi)
        return self.dts([self.dt64_of(x) for x in out])

    # -- truth values without forking
    def and_(self, *xs):
        r = True
        for x in xs:
            r = x & r if isinstance(x, SymBool) else (r if x else False)
        return r

    def or_(self, *xs):
        r = False
        for x in xs:
            r = x | r if isinstance(x, SymBool) else (True if x else r)
        return r

    def not_(self, x):
        return ~x if isinstance(x, SymBool) else not x

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b) if isinstance(c, SymBool) else (a if c else b)

    def min(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.smin(r, x)
        return r

    def max(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.smax(r, x)
        return r

    def attempt(self, fn, name=None):
        """("ok", value) or ("err", exception class name)"""
        try:
            r = ("ok", fn())
        except Exception as e:
            r = ("err", type(e).__name__)
            self.last_exception = e
        self.obs("attempt" if name is None else name, r[0] if r[0] == "ok" else r[1])
        return r

    def raises(self, fn, names, label):
        """fn must be refused with one of the named exceptions (or a subclass)."""
        names = (names,) if isinstance(names, str) else tuple(names)
        try:
            fn()
        except Exception as e:
            got = [c.__name__ for c in type(e).__mro__]
            self.last_exception = e
            self.check(any(n in got for n in names), label + ": refused with {} instead of {}".format(type(e).__name__, "/".join(names)))
            return e
        self.check(False, label + ": not refused")
        return None

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def mode_exact(self):
        """Real arithmetic (symbolic) instead of floats."""
        return self.symbolic

    def unique(self, name):
        """A name not used before in this process (registries outlive a path)."""
        HBase._serial += 1
        return "{}q{}".format(name, HBase._serial) if self.symbolic else name

    _serial = 0

    def limit(self, why):
        if self.symbolic:
            raise EngineLimit(why)
        raise Excluded(why)

    def unreachable(self, label):
        self.check(False, label)


# ---------------------------------------------------------------------------------------


class Oblig:
    __slots__ = ("label", "exact", "loose", "margin")

    def __init__(self, label, exact, loose=None, margin=None):
        self.label, self.exact, self.loose, self.margin = label, exact, loose, margin


class SymH(HBase):
    symbolic = True

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.inputs = {}  # name -> (kind, z3 constant, lo, hi)
        self.obligs = []
        self.obs_tol = {}

    def tier(self):
        return self._tier

    # -- inputs
    def _new(self, kind, name, e, lo, hi):
        if name in self.inputs:
            raise EngineLimit("input {} drawn twice".format(name))
        self.inputs[name] = (kind, e, lo, hi)
        if lo is not None:
            self.ctx.add(e >= (rval(lo) if kind == "real" else int(lo)))
        if hi is not None:
            self.ctx.add(e <= (rval(hi) if kind == "real" else int(hi)))
        if self.ctx._model is not None:
            v = core.model_fraction(self.ctx._model, e)
            if (lo is not None and v < Fraction(lo)) or (hi is not None and v > Fraction(hi)):
                self.ctx._model = None

    def real(self, name, lo=-1000, hi=1000):
        e = z3.Real(name)
        self._new("real", name, e, lo, hi)
        return SymReal(e)

    def int(self, name, lo, hi):
        e = z3.Int(name)
        self._new("int", name, e, lo, hi)
        return SymInt(e)

    def index(self, name, n):
        e = z3.Int(name)
        self._new("int", name, e, 0, n - 1)
        return self.ctx.fork_value(e)

    def bool(self, name):
        e = z3.Int(name)
        self._new("int", name, e, 0, 1)
        return SymBool(e == 1)

    def string(self, name, alphabet, minlen, maxlen):
        n = minlen + (self.index(name + ".len", maxlen - minlen + 1) if maxlen > minlen else 0)
        cs = []
        for i in range(n):
            e = z3.Int("{}.{}".format(name, i))
            codes = sorted({ord(c) for c in alphabet})
            self._new("char", "{}.{}".format(name, i), e, codes[0], codes[-1])
            rng, parts = None, []
            for c in codes + [None]:
                if rng is not None and c is not None and c == rng[1] + 1:
                    rng[1] = c
                    continue
                if rng is not None:
                    parts.append(e == rng[0] if rng[0] == rng[1] else z3.And(e >= rng[0], e <= rng[1]))
                rng = [c, c] if c is not None else None
            if len(parts) > 1:
                self.ctx.assume(z3.Or(parts))
            cs.append(e)
        return SymStr(cs)

    def word(self, text):
        return SymStr.of(text)

    def code(self, text, i):
        return ord(text[i]) if isinstance(text, str) else SymInt(text.c[i])

    def len(self, text):
        return len(text) if isinstance(text, str) else len(text.c)

    def civil(self, secs):
        """(year, month, day) of an instant: the calendar contract itself."""
        return tuple(core.mknum(x) for x in civil(simp(to_arith(secs) / 86400)))

    def log2(self, x):
        return core.sym_fn("log2", x)

    def floor(self, x):
        return SymInt(simp(z3.ToInt(to_real(to_arith(x)))))

    def digits(self, n, width):
        """Decimal text of a number (0 <= n < 10**width), with leading zeros."""
        e = to_arith(n)
        ds = [self.ctx.fresh_int("digit") for _ in range(width)]
        for d in ds:
            self.ctx.add(z3.And(d >= 48, d <= 57))
        self.ctx.add(e == z3.Sum([z3.IntVal(0)] + [(d - 48) * 10 ** (width - 1 - i) for i, d in enumerate(ds)]))
        self.ctx._model = None
        self.ctx.cache.setdefault("digits", {})[tuple(d.get_id() for d in ds)] = e
        return SymStr(ds)

    # -- containers
    def floats(self, xs):
        return as_symnd(list(xs))

    ints = floats

    def matrix(self, rows):
        out = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                out[i, j] = x
        return out.view(SymNd)

    def objs(self, xs):
        r = np.empty(len(xs), dtype=object)
        r[:] = xs
        r = r.view(SymNd)
        r._vobj = True
        return r

    def strs(self, xs):
        r = np.empty(len(xs), dtype=object)
        r[:] = xs
        return r.view(SymNd)

    def dt64_of(self, secs):
        return SymDT64(to_arith(secs), "s")

    def td64_of(self, secs):
        return SymTD64(to_arith(secs), "s")

    def datetime_parts(self, *parts):
        """An instant of year, month, day, hour, minute, second."""
        from .dt import make_datetime
        return make_datetime(*parts)

    def datetime_of(self, secs):
        return SymDatetime(to_arith(secs))

    def dts(self, xs):
        return as_symnd([lift_time(x) if isinstance(x, np.datetime64) else x for x in xs])

    def seconds(self, t):
        """seconds since 1970 of a datetime64/datetime"""
        t = scalar(t)
        if isinstance(t, (SymDT64, SymTD64)):
            return SymInt(simp(t.seconds))
        if isinstance(t, SymDatetime):
            return SymInt(simp(t.e))
        if isinstance(t, Sym):
            raise EngineLimit("seconds of {}".format(type(t).__name__))
        return con_seconds(t)

    def dt_unit(self, t):
        """unit of a datetime64 scalar or array (None for anything else)"""
        d = getattr(t, "dtype", None)
        if isinstance(t, (list, tuple)) or d is None or np.dtype(d).kind != "M":
            return None
        return np.datetime_data(d)[0]

    # -- statements
    def assume(self, c):
        if isinstance(c, SymBool):
            self.ctx.assume(c.e)
        elif not c:
            raise PathEnd("assumption")

    def obs(self, name, v):
        self.observations.append((name, v))

    def check(self, c, label):
        self.nchecks += 1
        e = zbool(c) if not isinstance(c, (bool, np.bool_)) else z3.BoolVal(bool(c))
        self.obligs.append(Oblig(label, e))

    def eq(self, a, b, label, tol=TOL, scale=1.0, obs=True):
        if obs:
            self.obs(label, a)
            self.obs_tol[label] = (max(1e-5, 3 * tol), max(scale, 1.0))
        for path, x, y in pair_up(a, b):
            self._eq1(x, y, label + path, tol, scale)

    def _eq1(self, x, y, label, tol, scale):
        self.nchecks += 1
        if x is MISMATCH:
            self.obligs.append(Oblig(label + " " + y, z3.BoolVal(False)))
            return
        if isinstance(x, (_SymNum,)) or isinstance(y, (_SymNum,)):
            if not isinstance(x, (_SymNum, SymBool)) and not core.is_num(x) or not isinstance(y, (_SymNum, SymBool)) and not core.is_num(y):
                self.obligs.append(Oblig(label + " (kind {} / {})".format(type(x).__name__, type(y).__name__), z3.BoolVal(False)))
                return
            ea, eb = to_arith(x), to_arith(y)
            if ea is None or eb is None:
                self.obligs.append(Oblig(label + " (non-finite)", z3.BoolVal(False)))
                return
            if z3.is_int(ea) and z3.is_int(eb):
                self.obligs.append(Oblig(label, simp(ea == eb)))
                return
            ea, eb = to_real(ea), to_real(eb)
            d = simp(ea - eb)
            ex = simp(d == 0)
            if not z3.is_true(ex) and core.rational_identity(d):
                ex = z3.BoolVal(True)
            absd, sc = zabs(d), rval(Fraction(scale)) + zabs(ea) + zabs(eb)
            self.obligs.append(Oblig(label, ex, absd <= rval(tol) * sc, lambda m: absd > rval(m) * sc))
            return
        if isinstance(x, Sym) or isinstance(y, Sym):
            c = x == y
            if c is NotImplemented:
                c = False
            self.obligs.append(Oblig(label, zbool(c)))
            return
        self.obligs.append(Oblig(label, z3.BoolVal(con_eq(x, y, tol, scale))))

    def lt(self, a, b, label, slack=0.0):
        self.check(a < b, label)

    def le(self, a, b, label, tol=TOL):
        """a <= b up to tolerance (floats)"""
        self.nchecks += 1
        ea, eb = to_arith(a), to_arith(b)
        ea, eb = to_real(ea), to_real(eb)
        d = simp(ea - eb)
        sc = z3.RealVal(1) + zabs(ea) + zabs(eb)
        self.obligs.append(Oblig(label, simp(d <= 0), d <= rval(tol) * sc, lambda m: d > rval(m) * sc))

    def note(self, *a):
        pass


def zabs(e):
    c = core.const_value(simp(e))
    if c is not None:
        return rval(abs(c))
    return z3.If(e >= 0, e, -e)


MISMATCH = object()


def _listlike(x):
    return isinstance(x, (list, tuple, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0)


def pair_up(a, b, path=""):
    """Scalar pairs of two nested containers."""
    if hasattr(a, "to_dict") and hasattr(a, "index") and not isinstance(a, dict):
        a = list(a)
    if _listlike(a) or _listlike(b):
        if not (_listlike(a) and _listlike(b)):
            return [(path, MISMATCH, "one side is a list")]
        a = base(a).tolist() if isinstance(a, np.ndarray) and is_obj(a) else list(a)
        b = base(b).tolist() if isinstance(b, np.ndarray) and is_obj(b) else list(b)
        if len(a) != len(b):
            return [(path, MISMATCH, "lengths {} and {}".format(len(a), len(b)))]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += pair_up(x, y, "{}[{}]".format(path, i))
        return out
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return [(path, MISMATCH, "one side is a dict")]
        if sorted(map(str, a)) != sorted(map(str, b)):
            return [(path, MISMATCH, "keys {} and {}".format(sorted(map(str, a)), sorted(map(str, b))))]
        out = []
        for k in a:
            out += pair_up(a[k], b[k], "{}[{!r}]".format(path, k))
        return out
    return [(path, scalar(a), scalar(b))]


def con_seconds(t):
    t = np.datetime64(t) if not isinstance(t, (np.datetime64, np.timedelta64)) else t
    return int(t.astype("datetime64[s]" if isinstance(t, np.datetime64) else "timedelta64[s]").astype(np.int64))


def con_eq(x, y, tol, scale):
    if core.is_num(x) and core.is_num(y):
        if isinstance(x, (bool, np.bool_)) and isinstance(y, (bool, np.bool_)):
            return bool(x) == bool(y)
        fx, fy = float(x), float(y)
        if math.isnan(fx) or math.isnan(fy):
            return math.isnan(fx) and math.isnan(fy)
        if math.isinf(fx) or math.isinf(fy):
            return fx == fy
        if core.is_int_like(x) and core.is_int_like(y):
            return int(x) == int(y)
        return abs(fx - fy) <= tol * (scale + abs(fx) + abs(fy))
    try:
        if isinstance(x, float) and math.isnan(x) or isinstance(y, float) and math.isnan(y):
            return isinstance(x, float) and isinstance(y, float) and math.isnan(x) and math.isnan(y)
        return bool(x == y)
    except Exception:
        return False


class ConH(HBase):
    """Concrete values, taken from `values` or (missing ones) drawn at random."""

    def __init__(self, values, seed=0):
        super().__init__()
        self.values = dict(values)
        self.used = {}
        self.rng = random.Random(seed)
        self.trace = []

    def _get(self, name, draw):
        if name in self.values:
            v = self.values[name]
        else:
            v = draw()
        self.used[name] = v
        return v

    def real(self, name, lo=-1000, hi=1000):
        v = self._get(name, lambda: Fraction(uniform(self.rng, lo, hi)))
        return float(Fraction(v))

    def int(self, name, lo, hi):
        return int(Fraction(self._get(name, lambda: self.rng.randint(lo, hi))))

    def index(self, name, n):
        v = int(Fraction(self._get(name, lambda: self.rng.randrange(n))))
        if not 0 <= v < n:
            raise Excluded(name)
        return v

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def string(self, name, alphabet, minlen, maxlen):
        n = minlen + (self.index(name + ".len", maxlen - minlen + 1) if maxlen > minlen else 0)
        al = sorted(set(alphabet))
        return "".join(chr(int(Fraction(self._get("{}.{}".format(name, i), lambda: ord(self.rng.choice(al)))))) for i in range(n))

    def code(self, text, i):
        return ord(text[i])

    def len(self, text):
        return len(text)

    def civil(self, secs):
        d = np.datetime64(int(secs), "s").item()
        return d.year, d.month, d.day

    def floor(self, x):
        return math.floor(x)

    def log2(self, x):
        return math.log2(x)

    def digits(self, n, width):
        return str(int(n)).zfill(width)

    def floats(self, xs):
        return np.array([float(x) for x in xs])

    def ints(self, xs):
        return np.array([int(x) for x in xs])

    def matrix(self, rows):
        return np.array([[float(x) for x in r] for r in rows])

    def objs(self, xs):
        r = np.empty(len(xs), dtype=object)
        r[:] = xs
        return r

    def strs(self, xs):
        return np.array(list(xs))

    def dt64_of(self, secs):
        return np.datetime64(int(secs), "s")

    def td64_of(self, secs):
        return np.timedelta64(int(secs), "s")

    def datetime_parts(self, *parts):
        return datetime.datetime(*[int(v) for v in parts])

    def datetime_of(self, secs):
        return np.datetime64(int(secs), "s").item()

    def dts(self, xs):
        return np.array([np.datetime64(x, "s") for x in xs], dtype="datetime64[s]")

    def seconds(self, t):
        return con_seconds(t)

    def dt_unit(self, t):
        d = getattr(t, "dtype", None)
        if d is None or np.dtype(d).kind != "M":
            return None
        return np.datetime_data(d)[0]

    def assume(self, c):
        if not bool(c):
            raise Excluded("assumption")

    def obs(self, name, v):
        self.observations.append((name, snapshot(v)))

    def note(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    def check(self, c, label):
        self.nchecks += 1
        if not bool(c):
            raise Failed(label, "")

    def eq(self, a, b, label, tol=TOL, scale=1.0, obs=True):
        if obs:
            self.obs(label, a)
        for path, x, y in pair_up(a, b):
            self.nchecks += 1
            if x is MISMATCH:
                raise Failed(label + path + " " + y, "{!r} vs {!r}".format(snapshot(a), snapshot(b)))
            if not con_eq(x, y, tol, scale):
                raise Failed(label + path, "got {!r}, expected {!r}".format(snapshot(x), snapshot(y)))

    def lt(self, a, b, label, slack=1e-9):
        self.nchecks += 1
        if not (a < b or abs(float(a) - float(b)) <= slack * (1 + abs(float(a)))):
            raise Failed(label, "{!r} < {!r}".format(a, b))

    def le(self, a, b, label, tol=TOL):
        self.nchecks += 1
        if not float(a) - float(b) <= tol * (1 + abs(float(a)) + abs(float(b))):
            raise Failed(label, "{!r} <= {!r}".format(a, b))


def snapshot(v):
    """Picklable, comparable form of a result."""
    if isinstance(v, np.ndarray):
        return [snapshot(x) for x in v] if v.ndim else snapshot(v[()])
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    if isinstance(v, dict):
        return {str(k): snapshot(x) for k, x in v.items()}
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return ("t", con_seconds(v))
    if isinstance(v, np.generic):
        return v.item()
    if hasattr(v, "timetuple"):
        return ("t", con_seconds(np.datetime64(v.replace(tzinfo=None))))
    if v is None or isinstance(v, (int, float, str, bool)):
        return v
    if hasattr(v, "tolist"):
        return snapshot(v.tolist())
    return repr(type(v))


def sym_exprs(v):
    """The solver terms in a result."""
    if isinstance(v, np.ndarray):
        return [e for x in base(v).ravel() for e in sym_exprs(x)] if base(v).dtype == object else []
    if isinstance(v, (list, tuple)):
        return [e for x in v for e in sym_exprs(x)]
    if isinstance(v, dict):
        return [e for x in v.values() for e in sym_exprs(x)]
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return [v.e]
    if isinstance(v, SymStr):
        return [e for e in v.c if z3.is_expr(e)]
    if isinstance(v, (SymDT64, SymTD64)):
        return [v.seconds]
    if isinstance(v, (SymTimedelta, SymDatetime)):
        return [v.e]
    return []


def sym_snapshot(v, m):
    """The snapshot of a symbolic result under a model."""
    if isinstance(v, np.ndarray):
        b = base(v)
        return [sym_snapshot(x, m) for x in b] if v.ndim else sym_snapshot(b[()], m)
    if isinstance(v, (list, tuple)):
        return [sym_snapshot(x, m) for x in v]
    if isinstance(v, dict):
        return {str(k): sym_snapshot(x, m) for k, x in v.items()}
    if isinstance(v, SymReal):
        return float(core.model_fraction(m, v.e))
    if isinstance(v, SymInt):
        return int(core.model_fraction(m, v.e))
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymStr):
        return "".join(chr(int(core.model_fraction(m, e))) for e in v.c)
    if isinstance(v, (SymDT64, SymTD64, SymTimedelta, SymDatetime)):
        s = v.seconds if isinstance(v, (SymDT64, SymTD64)) else v.e
        return ("t", int(core.model_fraction(m, s)))
    return snapshot(v)


def same_snapshot(a, b, tol=(1e-5, 1.0)):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_snapshot(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_snapshot(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return con_eq(float(a), float(b), tol[0], tol[1])
    return a == b
