"""
Path engine and symbolic scalars.

A path is one execution of a harness; symbolic branches are decided by Z3 and all feasible sides are
explored by re-executing with a decision prefix (depth first).
"""
import math
import numbers
import random
import sys
import time
from fractions import Fraction

import numpy as np
import z3

CTX = None  # the active path context


class EngineLimit(BaseException):
    """Something on this path cannot be encoded."""


class PathEnd(BaseException):
    """This path is infeasible or excluded by an assumption."""


class Sym:
    """Marker base of all symbolic values."""

    __slots__ = ()


def ctx():
    if CTX is None:
        raise EngineLimit("symbolic value used outside of a path")
    return CTX


def frac(x):
    return Fraction(float(x)) if isinstance(x, (float, np.floating)) else Fraction(int(x))


def rval(x):
    f = frac(x) if not isinstance(x, Fraction) else x
    return z3.RealVal("{}/{}".format(f.numerator, f.denominator))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction)) and not isinstance(x, np.timedelta64)


def is_int_like(x):
    return isinstance(x, (int, np.integer, np.bool_))


def simp(e):
    return z3.simplify(e)


def simp_som(e):
    return z3.simplify(e, som=True, som_blowup=1000000)


def const_value(e):
    """Fraction if the z3 expression is a numeral."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


class TrueModel:
    """A model in which the uninterpreted real functions have their true values (up to float accuracy)."""

    def __init__(self, m, exprs):
        self.m = m
        apps, seen = [], set()

        def visit(e):
            todo = [(e, False)]
            while todo:
                x, done = todo.pop()
                if done:
                    apps.append(x)
                    continue
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in UF and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    todo.append((x, True))
                todo.extend((c, False) for c in x.children())
        for e in exprs:
            visit(e)
        self.pairs = []
        self.ok = True
        for x in apps:
            try:
                v = getattr(math, x.decl().name())(float(model_fraction(self, x.arg(0))))
            except (ValueError, OverflowError):
                self.ok = False
                v = 0.0
            self.pairs.append((x, rval(Fraction(v))))

    def eval(self, e, model_completion=True):
        if self.pairs:
            e = z3.substitute(e, *self.pairs)
        return self.m.eval(e, model_completion=model_completion)


def model_fraction(m, e):
    v = m.eval(e, model_completion=True)
    c = const_value(v)
    if c is not None:
        return c
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    c = const_value(v)
    if c is None:
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        raise EngineLimit("no numeric model value")
    return c


def where():
    """The nearest position in the code under test or in a harness."""
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith("/repo/") or "/props/" in n:
            return (n, f.f_lineno)
        f = f.f_back
    return None


class TooBig(Exception):
    pass


def _pmul(a, b):
    r = {}
    if len(a) * len(b) > 60000:
        raise TooBig
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pnorm(p):
    """(leading coefficient, primitive polynomial as hashable)"""
    lead = p[min(p)]
    return lead, tuple(sorted((m, c / lead) for m, c in p.items()))


def _rat(e, memo):
    """(numerator polynomial, {denominator factor: power}) of an arithmetic expression."""
    k = e.get_id()
    r = memo.get(k)
    if r is not None:
        return r[1]
    c = const_value(e)
    kind = e.decl().kind() if z3.is_app(e) else None
    if c is not None:
        r = ({(): c} if c else {}, {})
    elif kind == z3.Z3_OP_TO_REAL:
        r = _rat(e.arg(0), memo)
    elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = _rat(e.arg(0), memo)
        for i in range(1, e.num_args()):
            r = _radd(r, _rat(e.arg(i), memo), 1 if kind == z3.Z3_OP_ADD else -1)
    elif kind == z3.Z3_OP_UMINUS:
        n, d = _rat(e.arg(0), memo)
        r = ({m: -v for m, v in n.items()}, d)
    elif kind == z3.Z3_OP_MUL:
        r = _rat(e.arg(0), memo)
        for i in range(1, e.num_args()):
            r = _rmul(r, _rat(e.arg(i), memo))
    elif kind == z3.Z3_OP_DIV:
        r = _rmul(_rat(e.arg(0), memo), _rinv(_rat(e.arg(1), memo)))
    elif kind == z3.Z3_OP_POWER and const_value(e.arg(1)) is not None and const_value(e.arg(1)).denominator == 1 \
            and 0 < const_value(e.arg(1)) <= 6:
        b = _rat(e.arg(0), memo)
        r = b
        for _ in range(int(const_value(e.arg(1))) - 1):
            r = _rmul(r, b)
    else:
        r = ({(e.get_id(),): Fraction(1)}, {})
    memo[k] = (e, r)
    return r


def _radd(a, b, k):
    (n1, d1), (n2, d2) = a, b
    if not n2:
        return a
    den = dict(d1)
    for f, p in d2.items():
        den[f] = max(den.get(f, 0), p)
    for f, p in den.items():
        for _ in range(p - d1.get(f, 0)):
            n1 = _pmul(n1, dict(f))
        for _ in range(p - d2.get(f, 0)):
            n2 = _pmul(n2, dict(f))
    return (_padd(n1, n2, k), den)


def _rmul(a, b):
    (n1, d1), (n2, d2) = a, b
    d = dict(d1)
    for f, p in d2.items():
        d[f] = d.get(f, 0) + p
    n = None
    # cancel whole factors
    for x, y in ((n1, n2), (n2, n1)):
        if len(x) > 1 or (len(x) == 1 and () not in x):
            l, f = _pnorm(x)
            if d.get(f):
                d[f] -= 1
                if not d[f]:
                    del d[f]
                n = {m: c * l for m, c in y.items()}
                break
    return (_pmul(n1, n2) if n is None else n, d)


def _rinv(a):
    n, d = a
    if not n:
        raise TooBig
    l, f = _pnorm(n)
    num = {(): 1 / l}
    for g, p in d.items():
        for _ in range(p):
            num = _pmul(num, dict(g))
    return (num, {} if f == (((), Fraction(1)),) else {f: 1})


def rational_identity(e):
    """Is the expression zero as a rational function (all its divisors being non-zero)?"""
    try:
        return not _rat(e, {})[0]
    except (TooBig, RecursionError):
        return False


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.trivial = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Ctx:
    """One path."""

    def __init__(self, prefix, stats, rng, deadline, query_ms=10000):
        self.prefix = prefix
        self.stats = stats
        self.rng = rng
        self.deadline = deadline
        self.query_ms = query_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.pc = []
        self.decisions = []
        self.pending = []
        self._model = None
        self.flags = {}
        self.fresh = 0
        self.functions = set()
        self.branches = 0
        self.nonlinear = False
        self.knots = []  # interpolation breakpoints seen on this path
        self.cache = {}
        self.fork_cache = {}
        self.hashes = {}

    # -- solver -----------------------------------------------------------------
    def flag(self, what):
        self.flags[what] = self.flags.get(what, 0) + 1

    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def fresh_name(self, base):
        self.fresh += 1
        return "{}!{}".format(base, self.fresh)

    def fresh_int(self, base="k"):
        return z3.Int(self.fresh_name(base))

    def fresh_real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def check(self, *extra, ms=None):
        """Returns (result, model)."""
        if time.monotonic() > self.deadline:
            raise EngineLimit("time budget of the case used up")
        t = time.monotonic()
        self.stats.queries += 1
        if ms is not None:
            self.solver.set("timeout", ms)
        r, m = z3.unknown, None
        try:
            if extra:
                self.solver.push()
                self.solver.add(*extra)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            if extra:
                self.solver.pop()
        if ms is not None:
            self.solver.set("timeout", self.query_ms)
        if r == z3.unknown:
            r, m = self._hard_check(extra, ms or self.query_ms)
        self.stats.solver_time += time.monotonic() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def _hard_check(self, extra, ms):
        fs = [z3.simplify(f, som=True, som_blowup=100000) for f in self.pc + list(extra)]
        for tac in (z3.TryFor(z3.Then("simplify", "solve-eqs", "nlsat"), ms), z3.TryFor(z3.Tactic("default"), ms)):
            try:
                s = tac.solver()
                s.set("timeout", ms)
                s.add(*fs)
                r = s.check()
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def model(self):
        if self._model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r == z3.unknown:
                raise EngineLimit("path condition undecided")
            self._model = m
        return self._model

    # -- control ----------------------------------------------------------------
    def branch(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.branches += 1
        i = len(self.decisions)
        loc = where()
        if self.hashes.setdefault(tuple(self.decisions), loc) != loc:
            raise EngineLimit("the code does not repeat itself (hidden state or nondeterminism)")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.add(cond if d else simp(z3.Not(cond)))
            self._model = None
            return d
        if len(self.decisions) > 4000:
            raise EngineLimit("too many branches on one path")
        m = self.model()
        v = z3.is_true(m.eval(cond, model_completion=True))
        pos = cond if v else simp(z3.Not(cond))
        neg = simp(z3.Not(cond)) if v else cond
        r, _ = self.check(neg)
        if r != z3.unsat:
            self.pending.append(self.decisions + [not v])
            if r == z3.unknown:
                self.flag("undecided branch (both sides explored)")
        self.decisions.append(v)
        self.add(pos)
        return v

    def assume(self, cond):
        """cond: z3 BoolRef"""
        cond = simp(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd("assumption")
        self.add(cond)
        if self._model is not None and not z3.is_true(self._model.eval(cond, model_completion=True)):
            self._model = None
        # feasibility is checked lazily by model()

    def implied(self, cond, ms=1000):
        """Whether the path is known to make cond true (no means unknown, too)."""
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        m = self._model
        if m is not None and z3.is_false(m.eval(cond, model_completion=True)):
            return False
        key = (len(self.pc), cond.get_id())
        hit = self.cache.setdefault("implied", {}).get(key)
        if hit is None:
            hit = (self.check(z3.Not(cond), ms=ms)[0] == z3.unsat, cond)
            self.cache["implied"][key] = hit
        return hit[0]

    def fork_value(self, e, limit=200):
        """Enumerate all values of an Int expression (complete)."""
        e = simp(e)
        c = const_value(e)
        if c is not None:
            return int(c)
        for _ in range(limit):
            key = tuple(self.decisions)
            v = self.fork_cache.get(key)
            if v is None:
                v = int(model_fraction(self.model(), e))
                self.fork_cache[key] = v
            if self.branch(e == v):
                return v
        raise EngineLimit("too many values for an integer used as an index")

    def concretise(self, e, why):
        """Fix an expression to its model value; the path no longer covers all values."""
        self.flag("concretised: " + why)
        m = self.model()
        v = model_fraction(m, e)
        self.add(e == (rval(v) if z3.is_real(e) else z3.IntVal(int(v))))
        return v


# ---------------------------------------------------------------------------------------
# scalars


def to_arith(x):
    """z3 arithmetic expression of a number, or None."""
    if isinstance(x, (SymReal, SymInt)):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)) and not isinstance(x, np.timedelta64):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        if math.isfinite(x):
            return rval(x)
        return None
    if isinstance(x, Fraction):
        return rval(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_arith(x.item())
    return None


def to_real(e):
    if z3.is_int(e):
        c = const_value(e)
        return z3.RealVal(int(c)) if c is not None else z3.ToReal(e)
    return e


def mkbool(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(x):
    """z3 Bool of a truth value."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ("e",)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == zbool(o))
        if is_num(o) or isinstance(o, Sym):
            return SymInt(to_arith(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(zbool(r)))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbool>"

    def _as_int(self):
        return SymInt(to_arith(self))

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._as_int() - o

    def __rsub__(self, o):
        return o - self._as_int()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def all(self, *a, **k):
        return self

    any = all


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


class _SymNum(Sym):
    __slots__ = ("e",)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    # -- arithmetic helpers
    def _other(self, o):
        """z3 expr of the other operand, or NotImplemented."""
        if isinstance(o, Sym) and not isinstance(o, (_SymNum, SymBool)):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        e = to_arith(o)
        return NotImplemented if e is None else e

    def _bin(self, o, op, swap=False):
        if _nonfinite(o):
            o = float(o)
            return _inf_arith(op, self, o, swap)
        e = self._other(o)
        if e is NotImplemented:
            return NotImplemented
        a, b = (e, self.e) if swap else (self.e, e)
        if op == "+":
            return mknum(_promote(a, b, lambda x, y: x + y))
        if op == "-":
            return mknum(_promote(a, b, lambda x, y: x - y))
        if op == "*":
            return mknum(_promote(a, b, lambda x, y: x * y))
        if op == "/":
            a, b = to_real(a), to_real(b)
            c = const_value(simp(b))
            if c is not None:
                if c == 0:
                    raise ZeroDivisionError("division by zero")
                return mknum(a * rval(1 / c))
            if ctx().branch(b == 0):
                raise EngineLimit("division by zero")
            return mknum(a / b)
        if op in ("//", "%"):
            return _floordivmod(a, b, op)
        raise EngineLimit(op)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n, mod=None):
        if isinstance(n, _SymNum):
            c = const_value(simp(n.e))
            if c is None:
                raise EngineLimit("symbolic exponent")
            n = c
        if _nonfinite(n) or Fraction(n).denominator != 1 or abs(int(n)) > 8:
            raise EngineLimit("power {}".format(n))
        n = int(n)
        if n == 0:
            return 1.0
        r = self
        for _ in range(abs(n) - 1):
            r = r * self
        return r if n > 0 else 1 / r

    def __rpow__(self, b):
        raise EngineLimit("symbolic exponent")

    # -- comparison
    def _cmp(self, o, op):
        if _nonfinite(o):
            if math.isnan(o):
                return op == "!="
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        e = self._other(o)
        if e is NotImplemented:
            if op == "==":
                return False if not isinstance(o, Sym) else NotImplemented
            if op == "!=":
                return True if not isinstance(o, Sym) else NotImplemented
            return NotImplemented
        a, b = self.e, e
        if z3.is_real(a) != z3.is_real(b):
            a, b = to_real(a), to_real(b)
        return mkbool({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                       ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __repr__(self):
        return "<sym {}>".format(str(self.e)[:60].replace("\n", " "))

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # float/int/numpy scalar API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __floor__(self):
        return SymInt(simp(zfloor(self.e)))

    def __ceil__(self):
        return SymInt(simp(zceil(self.e)))

    def __trunc__(self):
        return SymInt(simp(ztrunc(self.e)))

    def __round__(self, n=None):
        if n not in (None, 0):
            raise EngineLimit("round to digits")
        f = zfloor(to_real(self.e) + rval(Fraction(1, 2)))
        # ties to even
        tie = z3.ToReal(f) == to_real(self.e) + rval(Fraction(1, 2))
        r = simp(z3.If(z3.And(tie, f % 2 == 1), f - 1, f))
        return SymInt(r) if n is None else mknum(z3.ToReal(r))

    def is_integer(self):
        if z3.is_int(self.e):
            return True
        return mkbool(z3.IsInt(self.e))


def _inf_arith(op, s, o, swap):
    if math.isnan(o):
        return float("nan")
    a, b = (o, s) if swap else (s, o)
    if op == "+":
        return o
    if op == "-":
        return o if swap else -o
    if op in ("*", "/"):
        if op == "/" and not swap:
            return 0.0
        if bool(s > 0):
            return o
        if bool(s < 0):
            return -o
        return float("nan")
    raise EngineLimit("infinity arithmetic")


def _promote(a, b, f):
    if z3.is_real(a) != z3.is_real(b):
        a, b = to_real(a), to_real(b)
    return f(a, b)


def zfloor(e):
    return e if z3.is_int(e) else _toint(e)


def _toint(e):
    e = simp(e)
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    ie = as_int_expr(e)
    return ie if ie is not None else z3.ToInt(e)


def as_int_expr(e):
    """If a real expression is syntactically integer valued (integer combination of to_real terms) return it as Int."""
    if z3.is_int(e):
        return e
    c = const_value(e)
    if c is not None:
        return z3.IntVal(int(c)) if c.denominator == 1 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        args = [as_int_expr(a) for a in e.children()]
        if any(a is None for a in args):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(args)
        if k == z3.Z3_OP_MUL:
            return z3.Product(args)
        if k == z3.Z3_OP_SUB:
            r = args[0]
            for a in args[1:]:
                r = r - a
            return r
        return -args[0]
    if k == z3.Z3_OP_ITE:
        a, b = as_int_expr(e.arg(1)), as_int_expr(e.arg(2))
        if a is None or b is None:
            return None
        return z3.If(e.arg(0), a, b)
    return None


def zceil(e):
    return e if z3.is_int(e) else -_toint(simp(-e))


def ztrunc(e):
    if z3.is_int(e):
        return e
    e = simp(e)
    ie = as_int_expr(e)
    if ie is None:
        ie = as_int_expr(simp_som(e))
    if ie is not None:
        return simp(ie)
    if CTX is not None:
        v = CTX.model().eval(e, model_completion=True)
        c = const_value(v)
        if c is not None:
            n = math.floor(c)
            if n >= 0 and CTX.implied(z3.And(e >= n, e < n + 1)):
                return z3.IntVal(n)
        if CTX.implied(e >= 0):
            return z3.ToInt(e)
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def _floordivmod(a, b, op):
    if z3.is_int(a) and z3.is_int(b):
        c = const_value(simp(b))
        if c is None:
            bz = ctx().branch(b == 0)
            if bz:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = ctx().branch(b > 0)
        else:
            if c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = c > 0
        # z3 div/mod: euclidean; equals python's for positive divisors
        q = a / b if pos else (-a) / (-b)
        if op == "//":
            return mknum(q)
        return mknum(a - b * q) if not pos else mknum(a % b)
    a, b = to_real(a), to_real(b)
    if ctx().branch(b == 0):
        raise EngineLimit("division by zero")
    q = zfloor(simp(a / b))
    return mknum(z3.ToReal(q)) if op == "//" else mknum(a - b * z3.ToReal(q))


def mknum(e):
    if z3.is_int(e):
        return SymInt(simp(e))
    return SymReal(simp(e))


class SymReal(_SymNum):
    """A float (modelled as an exact real)."""

    __slots__ = ()

    def __float__(self):
        c = const_value(simp(self.e))
        if c is not None:
            return float(c)
        return float(ctx().concretise(self.e, "float() in C code"))

    def __int__(self):
        return ctx().fork_value(simp(ztrunc(self.e)))

    def __hash__(self):
        return 0

    @property
    def dtype(self):
        return np.dtype("float64")

    def astype(self, t, *a, **k):
        from . import arrays

        return arrays.cast_scalar(self, np.dtype(t))


class SymInt(_SymNum):
    """An int."""

    __slots__ = ()

    def __index__(self):
        return ctx().fork_value(self.e)

    __int__ = __index__

    def __float__(self):
        return float(ctx().fork_value(self.e))

    def __hash__(self):
        return hash(ctx().fork_value(self.e))

    def __and__(self, o):
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    @property
    def dtype(self):
        return np.dtype("int64")

    def astype(self, t, *a, **k):
        from . import arrays

        return arrays.cast_scalar(self, np.dtype(t))


numbers.Number.register(SymReal)
numbers.Real.register(SymReal)
numbers.Number.register(SymInt)
numbers.Integral.register(SymInt)


def has_sym(x, depth=3):
    """Does a container hold symbolic values?"""
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object if type(x) is np.ndarray else False:
            return False
        return any(isinstance(v, Sym) for v in np.ndarray.ravel(x).tolist()) if _is_obj(x) else False
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v, depth - 1) for v in x.values()) or any(isinstance(v, Sym) for v in x)
    return False


def _is_obj(x):
    return np.ndarray.dtype.__get__(x) == object


def ite(c, a, b):
    """If-then-else on numbers without forking."""
    c = zbool(c)
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    ea, eb = to_arith(a), to_arith(b)
    if ea is None or eb is None:
        return a if ctx().branch(c) else b
    if z3.is_real(ea) != z3.is_real(eb):
        ea, eb = to_real(ea), to_real(eb)
    return mknum(z3.If(c, ea, eb))


# ---------------------------------------------------------------------------------------
# ufuncs on symbolic scalars and arrays

LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())
UF = {}


def uf(name):
    if name not in UF:
        UF[name] = LOG2 if name == "log2" else z3.Function(name, z3.RealSort(), z3.RealSort())
    return UF[name]


def sym_fn(name, x):
    """Uninterpreted real function (log2, exp, ...)."""
    if not isinstance(x, Sym):
        return getattr(math, name)(x)
    return SymReal(uf(name)(to_real(to_arith(x))))


def smin(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _isnan(a) or _isnan(b):
            return a if not _isnan(b) else b
        if to_arith(a) is None or to_arith(b) is None:
            return b if (b < a) else a
        return ite(b < a, b, a)
    return min(a, b)


def smax(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _isnan(a) or _isnan(b):
            return a if not _isnan(b) else b
        if to_arith(a) is None or to_arith(b) is None:
            return b if (b > a) else a
        return ite(b > a, b, a)
    return max(a, b)


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x) or x is None


def _u_isnan(x):
    if isinstance(x, Sym):
        return x.isnat() if hasattr(x, "isnat") else False
    return bool(np.isnan(x))


def _un(f):
    return lambda x: f(x)


UFUNCS = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "power": lambda a, b: a ** b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "square": lambda a: a * a,
    "reciprocal": lambda a: 1 / a,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "isnan": _u_isnan,
    "isnat": lambda a: False if isinstance(a, Sym) else bool(np.isnat(a)),
    "isfinite": lambda a: True if isinstance(a, Sym) else bool(np.isfinite(a)),
    "isinf": lambda a: False if isinstance(a, Sym) else bool(np.isinf(a)),
    "maximum": smax,
    "minimum": smin,
    "fmax": smax,
    "fmin": smin,
    "floor": lambda a: a.__floor__() * 1.0 if isinstance(a, Sym) else math.floor(a),
    "ceil": lambda a: a.__ceil__() * 1.0 if isinstance(a, Sym) else math.ceil(a),
    "trunc": lambda a: a.__trunc__() * 1.0 if isinstance(a, Sym) else math.trunc(a),
    "rint": lambda a: a.__round__() * 1.0 if isinstance(a, Sym) else round(a),
    "log2": lambda a: sym_fn("log2", a),
    "log": lambda a: sym_fn("log", a),
    "log10": lambda a: sym_fn("log10", a),
    "exp": lambda a: sym_fn("exp", a),
    "sqrt": lambda a: sym_fn("sqrt", a),
    "sign": lambda a: ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0)) if isinstance(a, Sym) else np.sign(a),
    "logical_and": lambda a, b: mkbool(z3.And(zbool(a), zbool(b))),
    "logical_or": lambda a, b: mkbool(z3.Or(zbool(a), zbool(b))),
    "logical_not": lambda a: mkbool(z3.Not(zbool(a))),
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "invert": lambda a: ~a,
    "conjugate": lambda a: a,
}
BOOL_RESULT = {"isnan", "isnat", "isfinite", "isinf"}


def apply_ufunc(ufunc, method, inputs, kwargs):
    from . import arrays

    return arrays.apply_ufunc(ufunc, method, inputs, kwargs)
