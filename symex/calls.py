"""Interception of calls made by openscm code: contracts for C code that cannot see symbolic values."""
import builtins
import collections.abc
import copy
import datetime
import enum
import functools
import itertools
import math
import numbers
import operator
import re
import time
import types

import numpy as np
import pandas as pd
import dateutil.parser
import scipy.integrate
import scipy.interpolate
import z3

from . import core
from .arrays import SymNd, arr_has_sym, as_symnd, base, cast_scalar, is_obj, scalar, to_plain
from .core import EngineLimit, Sym, SymBool, SymInt, SymReal, _SymNum, has_sym, ite, mkbool, mknum, simp, smax, smin, to_arith, to_real, zbool
from .dt import SymDatetime, SymDT64, SymTD64, SymTimedelta, make_datetime
from .strings import SymPattern, SymStr, compile_pattern, escape, format_, join

OVER = {}  # id(function) -> (function, contract)
METHODS = {}  # name -> [(type, contract)]


def over(*fs):
    def d(g):
        for f in fs:
            OVER[id(f)] = (f, g)
        return g

    return d


def enter(name):
    if core.CTX is not None:
        core.CTX.functions.add(name)


def active():
    return core.CTX is not None


# ---------------------------------------------------------------------------------------
HOF = (map, filter, sorted, functools.reduce, np.vectorize, np.frompyfunc, np.apply_along_axis, min, max, itertools.starmap)


def wrap_fn(v):
    """Replace a function handed on as a value by its contract."""
    try:
        o = OVER.get(id(v))
    except Exception:
        return v
    if o is not None and o[0] is v:
        g = o[1]
        return lambda *a, **k: call(v, *a, **k)
    if isinstance(v, types.BuiltinMethodType) or isinstance(v, types.MethodDescriptorType):
        return lambda *a, **k: call(v, *a, **k)
    return v


def call(*args, **k):
    f, a = args[0], args[1:]
    if core.CTX is None:
        if f is np.frompyfunc or f is np.vectorize:  # made when a module is loaded, used later
            a = tuple(wrap_fn(v) for v in a)
        return f(*a, **k)
    if f in HOF if isinstance(f, (type, types.BuiltinFunctionType, types.FunctionType)) else False:
        a = tuple(wrap_fn(v) for v in a)
        if "key" in k:
            k["key"] = wrap_fn(k["key"])
    o = OVER.get(id(f))
    if o is not None and o[0] is f:
        r = o[1](*a, **k)
        if r is not NotImplemented:
            return r
    if isinstance(f, (types.BuiltinMethodType, types.MethodType, types.MethodWrapperType)):
        s = f.__self__
        name = f.__name__
        for t, g in METHODS.get(name, ()):
            if isinstance(s, t):
                r = g(s, f, *a, **k)
                if r is not NotImplemented:
                    return r
        if isinstance(s, (pd.DataFrame, pd.Series, pd.Index, pd.core.groupby.GroupBy, pd.core.indexing._NDFrameIndexerBase)) or (
                isinstance(s, type) and s.__module__.startswith("pandas")):
            a, k = plain_args(a, k)
            if name in ("apply", "agg", "aggregate", "transform", "map", "applymap") and a:
                a = (wrap_fn(a[0]),) + a[1:]
            return f(*a, **k)
        if isinstance(s, np.ndarray) and not isinstance(s, SymNd):
            if is_obj(s) and (arr_has_sym(s) or has_sym(a)):
                return symres(getattr(s.view(SymNd), name)(*a, **k))
            if has_sym(a) or has_sym(k):
                return symres(getattr(as_symnd(s), name)(*a, **k))
            return symres(f(*a, **k))
        if isinstance(s, SymNd):
            return symres(f(*a, **k))
        if isinstance(s, str) and (has_sym(a) or has_sym(k)):
            return str_method(s, name, f, a, k)
    mod = getattr(f, "__module__", None) or ""
    if isinstance(f, np.ufunc):
        if any(isinstance(x, np.ndarray) and is_obj(x) for x in a) or has_sym(a):
            r = core.apply_ufunc(f, "__call__", a, k)
            if r is NotImplemented:
                r = f(*a, **k)
            return r
        return symres(f(*a, **k))
    if isinstance(f, np.vectorize):
        return vectorized(f, a, k)
    if mod.startswith("numpy") and not isinstance(f, type):
        return symres(f(*a, **k))
    if mod.startswith("pandas"):
        a, k = plain_args(a, k)
    return f(*a, **k)


def vectorized(f, a, k):
    if k or not any(isinstance(x, SymNd) or (isinstance(x, np.ndarray) and is_obj(x)) for x in a):
        return symres(f(*a, **k))
    if not has_sym(a) and not any(isinstance(x, np.ndarray) and arr_has_sym(x) for x in a):
        return symres(f(*a))
    py = wrap_fn(f.pyfunc)
    shape = np.broadcast(*[base(x) if isinstance(x, np.ndarray) else core_box(x) for x in a]).shape
    arrs = [np.broadcast_to(base(x) if isinstance(x, np.ndarray) else core_box(x), shape) for x in a]
    out = np.empty(shape, dtype=object)
    cast = np.dtype(f.otypes).name if f.otypes and f.otypes != "O" else None
    for i in np.ndindex(*shape):
        out[i] = py(*[scalar(x[i]) for x in arrs])
        if cast:
            out[i] = cast_scalar(out[i], cast)
    if not arr_has_sym(out):
        vals = out.ravel().tolist()
        return np.array(vals).reshape(shape) if vals else out
    return out.view(SymNd)


def core_box(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def symres(r):
    """Results of numpy calls: float arrays become object arrays so that symbolic values can be stored."""
    if isinstance(r, np.ndarray):
        if isinstance(r, SymNd):
            return r
        if type(r) is np.ndarray:
            if is_obj(r):
                if r.ndim == 0:
                    return r[()] if isinstance(r[()], Sym) else r
                return r.view(SymNd)
            if r.dtype.kind == "f" and r.ndim > 0:
                return as_symnd(r)
        return r
    if isinstance(r, tuple):
        return tuple(symres(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list) and r and isinstance(r[0], np.ndarray):
        return [symres(x) for x in r]
    return r


def plain(v, depth=2):
    if isinstance(v, SymNd):
        return to_plain(v)
    if depth > 0:
        if type(v) is list:
            return [plain(x, depth - 1) for x in v]
        if type(v) is tuple:
            return tuple(plain(x, depth - 1) for x in v)
        if type(v) is dict:
            return {kk: plain(x, depth - 1) for kk, x in v.items()}
    return v


def plain_args(a, k):
    return tuple(plain(x) for x in a), {n: plain(x) for n, x in k.items()}


def str_method(s, name, f, a, k):
    if name == "join":
        items = list(a[0])
        if any(isinstance(x, SymStr) for x in items):
            return join(s, items)
        return f(items)
    if name == "format":
        if any(isinstance(x, SymStr) for x in list(a) + list(k.values())):
            return format_(s, a, k)
        return f(*a, **k)
    if any(isinstance(x, SymStr) for x in a):
        return getattr(SymStr.of(s), name)(*a, **k)
    return f(*a, **k)


# ---------------------------------------------------------------------------------------
# membership


def contains(x, c):
    if core.CTX is None:
        return x in c
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(x, SymStr) and isinstance(c, str):
        return SymStr.of(c).contains(x)
    if isinstance(c, (list, tuple, set, frozenset, collections.abc.KeysView, collections.abc.ValuesView, np.ndarray)):
        if isinstance(x, Sym) or has_sym(c):
            r = z3.BoolVal(False)
            for v in (c.ravel().tolist() if isinstance(c, np.ndarray) else list(c)):
                if v is x:
                    return True
                e = x == v
                if isinstance(e, np.ndarray):
                    e = bool(e.all())
                r = z3.Or(r, zbool(e))
            return mkbool(r)
    if isinstance(x, Sym) and isinstance(c, range):
        if isinstance(x, (SymInt, SymReal)):
            return (x >= c.start) & (x < c.stop) & ((x - c.start) % c.step == 0) if c.step > 0 else x in list(c)
    if isinstance(c, dict) and (isinstance(x, SymStr) or any(isinstance(k, Sym) for k in c)):
        r = z3.BoolVal(False)
        for v in c:
            r = z3.Or(r, zbool(x == v))
        return mkbool(r)
    return x in c


def not_contains(x, c):
    r = contains(x, c)
    return ~r if isinstance(r, SymBool) else not r


def lookup(d, k):
    """(found, value) of a symbolic key in a mapping; forks."""
    for x in list(d):
        if x is k or bool(x == k if isinstance(x, Sym) else k == x):
            return True, d[x]
    return False, None


def getitem(x, k):
    if core.CTX is None or not isinstance(k, Sym):
        return x[k]
    if isinstance(x, enum.EnumMeta):
        found, v = lookup(x.__members__, k)
        if found:
            return v
        raise KeyError(k)
    if isinstance(x, dict) and isinstance(k, (SymStr, SymReal)):
        found, v = lookup(x, k)
        if found:
            return v
        if hasattr(type(x), "__missing__"):
            return type(x).__missing__(x, k)
        raise KeyError(k)
    return x[k]


# ---------------------------------------------------------------------------------------
# builtins


@over(float)
def _float(x=0.0):
    if isinstance(x, (_SymNum, SymBool)):
        return cast_scalar(x, "float64")
    if isinstance(x, SymNd) and x.size == 1:
        return _float(base(x).ravel()[0])
    if isinstance(x, SymStr):
        return x.__cast_number__(np.dtype("float64")).item()
    if isinstance(x, (SymDT64, SymDatetime)):
        raise TypeError("float() argument must be a string or a number")
    return NotImplemented


@over(int)
def _int(x=0, *a):
    if isinstance(x, (_SymNum, SymBool)):
        return cast_scalar(x, "int64")
    if isinstance(x, SymStr):
        c = x.concrete()
        if c is None:
            if len(x.c) and bool(x.isdigit()):
                return x.number()
            # texts that are not all digits may still be signed numbers or contain blanks
            s = "".join(chr(core.CTX.fork_value(e)) for e in x.c)
            return int(s, *a)
        return int(c, *a)
    return NotImplemented


@over(bool)
def _bool(x=False):
    if isinstance(x, (SymBool,)):
        return x
    if isinstance(x, _SymNum):
        return x != 0
    return NotImplemented


@over(str)
def _str(x="", *a):
    return x if isinstance(x, SymStr) else NotImplemented


@over(len)
def _len(x):
    return x.symlen() if isinstance(x, SymStr) else NotImplemented


@over(abs)
def _abs(x):
    return NotImplemented


@over(repr)
def _repr(x):
    return NotImplemented


@over(ord)
def _ord(x):
    return SymInt(x.c[0]) if isinstance(x, SymStr) else NotImplemented


def virtual_types(x):
    if isinstance(x, SymReal):
        return (float, np.floating, numbers.Real, numbers.Number, np.float64)
    if isinstance(x, SymInt):
        return (int, np.integer, numbers.Integral, numbers.Real, numbers.Number)
    if isinstance(x, SymBool):
        return (bool, int, np.bool_, numbers.Integral, numbers.Number)
    if isinstance(x, SymStr):
        return (str, collections.abc.Iterable, collections.abc.Sequence, collections.abc.Hashable, collections.abc.Sized)
    if isinstance(x, SymDT64):
        return (np.datetime64, np.generic)
    if isinstance(x, SymTD64):
        return (np.timedelta64, np.generic)
    if isinstance(x, SymDatetime):
        return (datetime.datetime, datetime.date)
    if isinstance(x, SymTimedelta):
        return (datetime.timedelta,)
    if isinstance(x, SymPattern):
        return (re.Pattern,)
    return ()


@over(isinstance)
def _isinstance(x, t):
    if isinstance(x, (Sym, SymPattern)):
        ts = []

        def flat(y):
            if isinstance(y, tuple):
                for z in y:
                    flat(z)
            else:
                ts.append(y)

        flat(t)
        vt = virtual_types(x)
        for y in ts:
            if y in vt or y is object:
                return True
            org = getattr(y, "__origin__", None)
            if org in vt:
                return True
        return False
    return NotImplemented


@over(type)
def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymReal):
            return float
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymStr):
            return str
        return virtual_types(x)[0]
    return NotImplemented


@over(hash)
def _hash(x):
    return NotImplemented


@over(max)
def _max(*a, **k):
    return _minmax(smax, a, k)


@over(min)
def _min(*a, **k):
    return _minmax(smin, a, k)


def _minmax(f, a, k):
    if k and set(k) - {"default"}:
        return NotImplemented
    if len(a) == 1 and isinstance(a[0], types.GeneratorType):
        a = (list(a[0]),)
        if not a[0]:
            if k:
                return k["default"]
            raise ValueError("arg is an empty sequence")
        if not has_sym(a[0]):
            return (max if f is smax else min)(a[0])
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (_SymNum, SymDT64, SymTD64)) for x in xs):
        return NotImplemented
    r = scalar(xs[0])
    for x in xs[1:]:
        x = scalar(x)
        if isinstance(x, (SymDT64, SymTD64, SymDatetime)) or isinstance(r, (SymDT64, SymTD64, SymDatetime)):
            c = (x > r) if f is smax else (x < r)
            r = x if bool(c) else r
        else:
            r = f(r, x)
    return r


@over(sum)
def _sum(xs, start=0):
    return NotImplemented


@over(all)
def _all(xs):
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return mkbool(z3.And([zbool(x) for x in xs]))
    return all(xs)


@over(any)
def _any(xs):
    if isinstance(xs, (np.ndarray, pd.Series, pd.DataFrame)):
        return NotImplemented
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return mkbool(z3.Or([zbool(x) for x in xs]))
    return any(xs)


@over(round)
def _round(x, n=None):
    return NotImplemented


@over(math.log2)
def _log2(x):
    if not isinstance(x, Sym):
        return NotImplemented
    if not x > 0:
        raise ValueError("math domain error")
    return core.sym_fn("log2", x)


@over(math.log)
def _log(x, b=None):
    if not isinstance(x, Sym):
        return NotImplemented
    if b == 2:
        return core.sym_fn("log2", x)
    if b is None:
        # ln x = log2 x * ln 2
        return core.sym_fn("log2", x) * math.log(2)
    return core.sym_fn("log2", x) / math.log2(b)


@over(math.isnan)
def _isnan(x):
    return False if isinstance(x, Sym) else NotImplemented


@over(math.isfinite)
def _isfinite(x):
    return True if isinstance(x, Sym) else NotImplemented


@over(math.floor)
def _floor(x):
    return x.__floor__() if isinstance(x, Sym) else NotImplemented


@over(math.ceil)
def _ceil(x):
    return x.__ceil__() if isinstance(x, Sym) else NotImplemented


@over(math.trunc)
def _trunc(x):
    return x.__trunc__() if isinstance(x, Sym) else NotImplemented


@over(math.isclose)
def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not has_sym((a, b)):
        return NotImplemented
    return abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), abs_tol)


@over(datetime.datetime)
def _datetime(*a, **k):
    if has_sym(a) or has_sym(k):
        return make_datetime(*a, **k)
    return NotImplemented


@over(datetime.timedelta)
def _timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    if not has_sym((days, seconds, minutes, hours, weeks)):
        return NotImplemented
    s = (days + weeks * 7) * 86400 + hours * 3600 + minutes * 60 + seconds
    return SymTimedelta(simp(core.ztrunc(to_arith(s))))


@over(datetime.datetime.weekday)
def _weekday(x):
    return x.weekday() if isinstance(x, SymDatetime) else NotImplemented


@over(copy.deepcopy, copy.copy)
def _copy(x, *a):
    return x if isinstance(x, Sym) else NotImplemented


@over(re.compile)
def _recompile(p, flags=0):
    return compile_pattern(p, flags) if isinstance(p, SymStr) else NotImplemented


@over(re.escape)
def _reescape(p):
    return escape(p) if isinstance(p, SymStr) else NotImplemented


@over(re.match, re.fullmatch, re.search)
def _rematch(*a, **k):
    return NotImplemented


def _re_over(name):
    f = getattr(re, name)

    def g(p, s, flags=0):
        if isinstance(p, (SymStr, SymPattern)) or isinstance(s, SymStr):
            return getattr(compile_pattern(p, flags), name)(s)
        return NotImplemented

    OVER[id(f)] = (f, g)


for _n in ("match", "fullmatch", "search", "findall", "split"):
    _re_over(_n)


@over(re.sub)
def _resub(p, r, s, count=0, flags=0):
    if isinstance(p, (SymStr, SymPattern)) or isinstance(s, SymStr):
        return compile_pattern(p, flags).sub(r, s, count)
    return NotImplemented


def _pattern_method(name):
    def g(s, f, *a, **k):
        if any(isinstance(x, SymStr) for x in a):
            return getattr(compile_pattern(s), name)(*a, **k)
        return NotImplemented

    METHODS.setdefault(name, []).append((re.Pattern, g))


for _n in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub"):
    _pattern_method(_n)


@over(dateutil.parser.parse)
def _dateparse(s, *a, **k):
    if isinstance(s, SymStr):
        c = s.concrete()
        if c is not None:
            return dateutil.parser.parse(c, *a, **k)
        if a or k:
            raise EngineLimit("options of the date parser")
        return s.iso_instant()
    return NotImplemented


@over(time.strptime)
def _strptime(s, *a):
    if isinstance(s, SymStr):
        c = s.concrete()
        if c is None:
            c = "".join(chr(core.CTX.fork_value(e)) for e in s.c)
        return time.strptime(c, *a)
    return NotImplemented


# ---------------------------------------------------------------------------------------
# numpy


def _deep(x):
    """Nested lists/arrays -> object ndarray."""
    if isinstance(x, np.ndarray):
        return base(as_symnd(x)) if not is_obj(x) else base(x)
    if isinstance(x, (list, tuple)):
        rows = [_deep(v) for v in x]
        if all(isinstance(r, np.ndarray) for r in rows) and rows and len({r.shape for r in rows}) == 1:
            return np.stack(rows) if rows[0].ndim else _list([r[()] for r in rows])
        return _list(rows)
    return x


def _list(xs):
    o = np.empty(len(xs), dtype=object)
    for i, v in enumerate(xs):
        o[i] = scalar(v)
    return o


def _seq_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return arr_has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(_seq_sym(v) for v in x)
    return False


def _mkarray(x, dtype, copy_, ndmin=0):
    if isinstance(x, Sym):
        r = x if dtype is None else cast_scalar(x, dtype)
        return r
    if isinstance(x, np.ndarray):
        r = x if isinstance(x, SymNd) else x.view(SymNd)
        if dtype is not None and np.dtype(dtype) != r.dtype:
            return r.astype(dtype)
        return r.copy() if copy_ else r
    o = _deep(x)
    if o.ndim and all(isinstance(v, (SymBool, bool, np.bool_)) for v in o.ravel().tolist()):
        return np.array([bool(v) for v in o.ravel().tolist()]).reshape(o.shape)
    r = o.view(SymNd)
    return r if dtype is None else r.astype(dtype)


@over(np.array)
def _np_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0):
    if not _seq_sym(x) and not isinstance(x, SymNd):
        if hasattr(x, "__array__") and not isinstance(x, (np.ndarray, np.generic)):
            x = x.__array__()
            if not _seq_sym(x) and not isinstance(x, SymNd):
                return symres(np.array(x, dtype=dtype, copy=copy, ndmin=ndmin))
        else:
            return NotImplemented
    r = _mkarray(x, dtype, copy)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[np.newaxis]
    return r


@over(np.asarray, np.asanyarray, np.ascontiguousarray)
def _np_asarray(x, dtype=None, order=None):
    if not _seq_sym(x) and not isinstance(x, SymNd):
        if hasattr(x, "__array__") and not isinstance(x, (np.ndarray, np.generic)):
            x = x.__array__()
            if not _seq_sym(x) and not isinstance(x, SymNd):
                return symres(np.asarray(x, dtype=dtype))
        else:
            return NotImplemented
    return _mkarray(x, dtype, False)


@over(np.copy)
def _np_copy(x, *a, **k):
    if _seq_sym(x) or isinstance(x, SymNd):
        return _mkarray(x, None, True)
    return NotImplemented


@over(np.atleast_1d)
def _atleast_1d(x):
    if isinstance(x, Sym):
        return _list([x]).view(SymNd)
    return NotImplemented


@over(np.atleast_2d)
def _atleast_2d(x):
    if isinstance(x, (list, tuple)) and x and any(not isinstance(v, (np.ndarray, int, float)) for v in x):
        rows = [_np_asarray(v) for v in x]
        rows = [np.asarray(v) if r is NotImplemented else r for v, r in zip(x, rows)]
        if any(isinstance(r, np.ndarray) and is_obj(r) for r in rows):
            return np.stack([base(as_symnd(r)) for r in rows]).view(SymNd)
    if _seq_sym(x):
        o = base(_mkarray(x, None, False))
        return (o if o.ndim >= 2 else o[np.newaxis]).view(SymNd)
    return NotImplemented


@over(np.full)
def _full(shape, fill, dtype=None, **k):
    if isinstance(fill, Sym) or dtype is None or np.dtype(dtype).kind == "f":
        o = np.empty(shape if not isinstance(shape, Sym) else int(shape), dtype=object)
        fill = scalar(fill)
        if isinstance(fill, np.ndarray):
            o[...] = _deep(fill)
        else:
            o.fill(fill)
        return o.view(SymNd)
    return NotImplemented


@over(np.full_like, np.zeros_like, np.ones_like, np.empty_like)
def _like(x, *a, **k):
    return NotImplemented


def _like_over(f, fill):
    def g(x, *a, **k):
        if not (isinstance(x, np.ndarray) and is_obj(x)) and not _seq_sym(x):
            return NotImplemented
        v = a[0] if f is np.full_like else fill
        shape = np.shape(x)
        o = np.empty(shape, dtype=object)
        o.fill(v)
        return o.view(SymNd)

    OVER[id(f)] = (f, g)


for _f, _v in ((np.full_like, None), (np.zeros_like, 0.0), (np.ones_like, 1.0), (np.empty_like, float("nan"))):
    _like_over(_f, _v)


@over(np.empty)
def _empty(shape, dtype=float, **k):
    if np.dtype(dtype).kind == "f":
        # contents of np.empty are arbitrary; NaN makes every use visible
        o = np.empty(shape, dtype=object)
        o.fill(float("nan"))
        return o.view(SymNd)
    return NotImplemented


@over(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        return NotImplemented
    if isinstance(dst, np.ndarray) and is_obj(dst):
        s = src if isinstance(src, np.ndarray) else _np_asarray(src)
        if s is NotImplemented:
            s = np.asarray(src)
        if casting == "same_kind" and isinstance(dst, SymNd) and not dst._vobj and dst.dtype.kind == "i" and as_symnd(s).dtype.kind == "f":
            raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'same_kind'")
        s = base(as_symnd(s)) if isinstance(s, np.ndarray) and s.ndim else s
        if isinstance(s, np.ndarray) and s.shape != dst.shape:
            np.broadcast_to(s, dst.shape)  # raises like numpy
        base(dst)[...] = s
        return None
    return NotImplemented


@over(np.isnan, np.isfinite, np.isinf, np.isnat)
def _np_isx(x, *a, **k):
    return NotImplemented


@over(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym((start, stop, num)):
        return NotImplemented
    n = int(num)
    if n < 0:
        raise ValueError("Number of samples must be non-negative")
    div = (n - 1) if endpoint else n
    start, stop = scalar(start), scalar(stop)
    delta = stop - start
    out = []
    for i in range(n):
        if div > 0:
            v = start + delta * i / div if i else start + delta * 0
        else:
            v = start * 1.0
        out.append(cast_scalar(v, "float64") if isinstance(v, _SymNum) else v)
    if endpoint and n > 1:
        out[-1] = cast_scalar(stop, "float64") if isinstance(stop, _SymNum) else stop
    r = as_symnd(out)
    if dtype is not None:
        t = np.dtype(dtype)
        if t.kind in "iu":
            r = np.floor(r)
        r = r.astype(t)
    step = delta / div if div > 0 else float("nan")
    return (r, step) if retstep else r


@over(np.arange)
def _arange(*a, **k):
    if not has_sym(a) and not has_sym(k):
        return NotImplemented
    dtype = k.pop("dtype", None)
    a = [scalar(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(step, (int, SymInt)) and isinstance(start, (SymDT64, np.datetime64)):
        step = SymTD64(to_arith(step))
    q = (stop - start) / step
    n = int(q.__ceil__()) if isinstance(q, Sym) else math.ceil(q)
    r = as_symnd([start + step * i for i in range(max(n, 0))])
    return r if dtype is None else r.astype(dtype)


@over(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _seq_sym(a) and not _seq_sym(b):
        return NotImplemented
    a, b = np.broadcast_arrays(_deep(a) if not isinstance(a, Sym) else core_box(a), _deep(b) if not isinstance(b, Sym) else core_box(b))
    return mkbool(z3.And([zbool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]))


@over(np.isclose)
def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or not has_sym((a, b)):
        return NotImplemented if not (_seq_sym(a) or _seq_sym(b)) else np.array([bool(abs(x - y) <= atol + rtol * abs(y)) for x, y in zip(*[v.ravel().tolist() for v in np.broadcast_arrays(_deep(a), _deep(b))])])
    return abs(a - b) <= atol + rtol * abs(b)


@over(np.datetime64)
def _np_datetime64(x=None, unit=None):
    if isinstance(x, SymDT64):
        return x.astype("datetime64[{}]".format(unit)) if unit else x
    if isinstance(x, SymDatetime):
        r = SymDT64(x.e)
        return r.astype("datetime64[{}]".format(unit)) if unit else r
    if isinstance(x, SymInt):
        return SymDT64(x.e, unit or "s")
    return NotImplemented


@over(np.timedelta64)
def _np_timedelta64(x=0, unit=None):
    if isinstance(x, (SymTD64, SymTimedelta)):
        return SymTD64(x.e)
    if isinstance(x, SymInt):
        if unit is None:
            raise EngineLimit("timedelta without unit")
        return SymTD64(x.e, unit)
    if isinstance(x, SymReal):
        raise ValueError("Could not convert object to NumPy timedelta")
    return NotImplemented


for _t in (np.float64, np.float32):
    OVER[id(_t)] = (_t, _float)
for _t in (np.int64, np.int32):
    OVER[id(_t)] = (_t, _int)


@over(np.where)
def _where(c, *xy):
    if not xy:
        return NotImplemented
    if isinstance(c, SymBool):
        return ite(c, *[scalar(v) for v in xy])
    if has_sym(xy) or isinstance(c, SymNd) or _seq_sym(c):
        c = _deep(c) if not isinstance(c, (bool, SymBool)) else core_box(c)
        c, x, y = np.broadcast_arrays(base(c), *[(_deep(v) if isinstance(v, (np.ndarray, list)) else core_box(v)) for v in xy])
        o = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            o[i] = scalar(x[i]) if bool(c[i]) else scalar(y[i])
        return o.view(SymNd)
    return NotImplemented


@over(np.dot)
def _dot(a, b, *k):
    if _seq_sym(a) or _seq_sym(b):
        a, b = _deep(a), _deep(b)
        return symres(np.dot(a, b))
    return NotImplemented


@over(np.mean, np.average)
def _npmean(x, axis=None, **k):
    if isinstance(x, np.ndarray) and is_obj(x) or _seq_sym(x):
        x = _deep(x).view(SymNd)
        if k.get("weights") is not None:
            w = _deep(k["weights"]).view(SymNd)
            return (x * w).sum(axis=axis) / w.sum()
        return x.mean(axis=axis)
    return NotImplemented


@over(np.nanmean, np.nansum)
def _npnanmean(x, axis=None, **k):
    if isinstance(x, np.ndarray) and is_obj(x) or _seq_sym(x):
        raise EngineLimit("nanmean")
    return NotImplemented


# ---------------------------------------------------------------------------------------
# interpolation and quadrature


def _le(a, b):
    return bool(a <= b)


class SymInterp:
    """scipy.interpolate.interp1d for 1-d data, exactly (real arithmetic)."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        x = [scalar(v) for v in (base(x).ravel().tolist() if isinstance(x, np.ndarray) else list(x))]
        y = [scalar(v) for v in (base(y).ravel().tolist() if isinstance(y, np.ndarray) else list(y))]
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if isinstance(kind, int):
            kind = {0: "zero", 1: "linear"}.get(kind, kind)
        if kind not in ("linear", "nearest", "nearest-up", "previous", "next", "zero"):
            if kind in ("slinear",):
                kind = "linear"
            else:
                raise EngineLimit("interpolation kind {}".format(kind))
        if kind == "zero":
            kind = "previous"
        if not assume_sorted:
            # stable insertion sort, forks on symbolic order
            idx = []
            for i in range(len(x)):
                j = len(idx)
                while j > 0 and not _le(x[idx[j - 1]], x[i]):
                    j -= 1
                idx.insert(j, i)
            x, y = [x[i] for i in idx], [y[i] for i in idx]
        self.x, self.y, self.kind = x, y, kind
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        if self.extrapolate:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            self.bounds_error = False
        else:
            self.bounds_error = True if bounds_error is None else bool(bounds_error)
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                self.below, self.above = fill_value
            else:
                self.below = self.above = fill_value
            self.below, self.above = scalar(self.below), scalar(self.above)
        if kind == "linear" and len(x) < 2 or len(x) < 1:
            raise ValueError("x and y arrays must have at least {} entries".format(2 if kind == "linear" else 1))
        core.CTX.knots.extend(self.x)

    def at(self, v):
        x, y = self.x, self.y
        n = len(x)
        v = scalar(v)
        if not self.extrapolate:
            if bool(v < x[0]):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return self.below
            if bool(v > x[-1]):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return self.above
        if self.kind == "linear":
            i = 1
            while i < n - 1 and not _le(v, x[i]):
                i += 1
            lo, hi = i - 1, i
            s = (y[hi] - y[lo]) / (x[hi] - x[lo])
            return s * (v - x[lo]) + y[lo]
        if self.kind == "previous":
            if bool(v < x[0]):
                return float("nan")
            i = 0
            while i + 1 < n and _le(x[i + 1], v):
                i += 1
            return y[i]
        if self.kind == "next":
            for i in range(n):
                if _le(v, x[i]):
                    return y[i]
            return float("nan")
        i = 0
        while i + 1 < n:
            mid = (x[i] + x[i + 1]) / 2
            stay = bool(v <= mid) if self.kind == "nearest" else bool(v < mid)
            if stay:
                break
            i += 1
        return y[i]

    def __call__(self, v):
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            b = base(v) if isinstance(v, np.ndarray) else _deep(v)
            if b.ndim == 0:
                return self.at(b[()])
            return as_symnd([self.at(t) for t in b.ravel().tolist()])
        return self.at(v)


@over(scipy.interpolate.interp1d)
def _interp1d(x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
    return SymInterp(x, y, kind, axis, copy, bounds_error, fill_value, assume_sorted)


@over(np.interp)
def _np_interp(v, xp, fp, left=None, right=None, period=None):
    if not (_seq_sym(v) or _seq_sym(xp) or _seq_sym(fp)):
        return NotImplemented
    if period is not None:
        raise EngineLimit("periodic interpolation")
    fp = list(base(fp).ravel()) if isinstance(fp, np.ndarray) else list(fp)
    return SymInterp(xp, fp, bounds_error=False, assume_sorted=True,
                     fill_value=(fp[0] if left is None else left, fp[-1] if right is None else right))(v)


def _callable_of(f, args=()):
    def g(t):
        r = f(t, *args)
        if isinstance(r, np.ndarray):
            r = base(r).ravel()[0]
        return scalar(r)

    return g


@over(scipy.integrate.quad)
def _quad(f, a, b, args=(), **k):
    """Exact integral of a piecewise cubic whose pieces end at interpolation knots of this path."""
    g = _callable_of(f, args if isinstance(args, tuple) else (args,))
    a, b = scalar(a), scalar(b)
    sign = 1
    if not _le(a, b):
        a, b, sign = b, a, -1
    knots = list(f.x) if isinstance(f, SymInterp) else list(core.CTX.knots)
    inner = []
    for x in knots:
        if not _le(x, a) and not _le(b, x):
            j = len(inner)
            dup = False
            while j > 0 and _le(x, inner[j - 1]):
                if bool(inner[j - 1] == x):
                    dup = True
                    break
                j -= 1
            if not dup:
                inner.insert(j, x)
    pts = [a] + inner + [b]
    total = 0.0
    for u, v in zip(pts[:-1], pts[1:]):
        h = v - u
        if not isinstance(h, Sym) and h == 0:
            continue
        # Milne's open rule: exact for cubics, does not touch the ends
        p1, p2, p3 = u + h / 4, u + h / 2, u + 3 * h / 4
        total = total + h * (2 * g(p1) - g(p2) + 2 * g(p3)) / 3
    return (total * sign, 0.0)


@over(scipy.integrate.fixed_quad, scipy.integrate.romberg if hasattr(scipy.integrate, "romberg") else scipy.integrate.fixed_quad)
def _fixed_quad(f, a, b, *x, **k):
    raise EngineLimit("quadrature rule")


# ---------------------------------------------------------------------------------------
# pandas on symbolic data


def meth(name, *types_):
    def d(g):
        METHODS.setdefault(name, []).append((types_, g))
        return g

    return d


def frame_sym(df):
    if isinstance(df, pd.Series):
        return df.dtype == object and has_sym(df.values)
    return any(t == object and has_sym(df.iloc[:, i].values) for i, t in enumerate(df.dtypes))


@meth("astype", pd.DataFrame, pd.Series)
def _pd_astype(s, f, dtype, *a, **k):
    if not frame_sym(s) or not (dtype in (float, "float", "float64", np.float64)):
        return NotImplemented
    r = s.copy()
    cast = lambda v: cast_scalar(v, "float64") if isinstance(v, Sym) else float(v)
    if isinstance(s, pd.Series):
        return pd.Series(_plainlist([cast(v) for v in s.values]), index=s.index, name=s.name)
    out = np.empty(s.shape, dtype=object)
    v = s.values
    for i in np.ndindex(*s.shape):
        out[i] = cast(v[i])
    return pd.DataFrame(out, index=s.index, columns=s.columns)


def _plainlist(xs):
    o = np.empty(len(xs), dtype=object)
    for i, v in enumerate(xs):
        o[i] = v
    return o


def _na(v):
    return v is None or isinstance(v, float) and math.isnan(v)


def _agg(name, vals, q=0.5):
    vals = [v for v in vals if not _na(v)]
    if name == "count":
        return len(vals)
    if name == "sum":
        r = 0.0
        for v in vals:
            r = r + v
        return r
    if not vals:
        return float("nan")
    if name == "mean":
        r = 0.0
        for v in vals:
            r = r + v
        return r / len(vals)
    if name == "first":
        return vals[0]
    if name == "last":
        return vals[-1]
    if name == "min":
        return functools.reduce(smin, vals)
    if name == "max":
        return functools.reduce(smax, vals)
    s = list(sort_syms(vals))
    if name == "median":
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if name == "quantile":
        pos = q * (len(s) - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, len(s) - 1)
        return s[lo] + (s[hi] - s[lo]) * (pos - lo)
    raise EngineLimit("aggregation " + name)


def sort_syms(vals):
    """Sorting network on symbolic numbers: no forks."""
    v = list(vals)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = smin(a, b), smax(a, b)
    return v


def _reduce_method(name):
    def g(s, f, axis=None, skipna=None, level=None, numeric_only=None, **k):
        if not frame_sym(s):
            return NotImplemented
        if level is not None or skipna is False:
            raise EngineLimit("reduction options")
        q = k.pop("q", 0.5)
        if isinstance(s, pd.Series):
            return _agg(name, s.values.tolist(), q)
        ax = 1 if axis in (1, "columns") else 0
        v = s.values if ax == 1 else s.values.T
        return pd.Series(_plainlist([_agg(name, list(row), q) for row in v]), index=s.index if ax == 1 else s.columns)

    METHODS.setdefault(name, []).append(((pd.DataFrame, pd.Series), g))


for _n in ("mean", "sum", "median", "min", "max", "count"):
    _reduce_method(_n)


@meth("quantile", pd.DataFrame, pd.Series)
def _pd_quantile(s, f, q=0.5, axis=0, *a, **k):
    if not frame_sym(s):
        return NotImplemented
    if isinstance(s, pd.Series):
        return _agg("quantile", s.values.tolist(), q)
    ax = 1 if axis in (1, "columns") else 0
    v = s.values if ax == 1 else s.values.T
    return pd.Series(_plainlist([_agg("quantile", list(row), q) for row in v]), index=s.index if ax == 1 else s.columns)


def _group_method(name):
    def g(gb, f, *a, **k):
        obj = gb._selected_obj if hasattr(gb, "_selected_obj") else gb.obj
        if not frame_sym(obj):
            return NotImplemented
        q = (a[0] if a else k.get("q", 0.5)) if name == "quantile" else 0.5
        if name != "quantile" and (a or {x: y for x, y in k.items() if x != "numeric_only"}):
            raise EngineLimit("group options")
        if not isinstance(q, float) and name == "quantile" and not isinstance(q, int):
            raise EngineLimit("quantile list")
        # run the real operation on stand-in numbers to obtain the structure of the result
        if isinstance(obj, pd.Series):
            stand = pd.Series([math.nan if _na(v) else 1.0 for v in obj.values], index=obj.index, name=obj.name)
        else:
            stand = pd.DataFrame(np.zeros(obj.shape), index=obj.index, columns=obj.columns)
            vals = obj.values
            num = []
            for j in range(obj.shape[1]):
                col = [vals[i, j] for i in range(obj.shape[0])]
                num.append(all(isinstance(v, (Sym, int, float, np.number)) or _na(v) for v in col))
                stand.iloc[:, j] = [math.nan if _na(v) else 1.0 for v in col]
        # keys
        if gb.axis != 0:
            raise EngineLimit("groupby axis")
        grouper = gb.grouper
        try:
            stand_gb = stand.groupby(grouper.names if all(n in (stand.index.names or []) for n in grouper.names) else gb.grouper,
                                     as_index=gb.as_index, sort=gb.sort, group_keys=gb.group_keys, squeeze=gb.squeeze, observed=gb.observed)
        except Exception as e:  # pragma: no cover
            raise EngineLimit("groupby structure: {}".format(e))
        res = getattr(stand_gb, name)(*a, **k)
        ids, _, ngroups = grouper.group_info
        res = res.astype(object)
        order = [[] for _ in range(ngroups)]
        for pos, gid in enumerate(ids):
            if gid >= 0:
                order[gid].append(pos)
        if len(res) != ngroups:
            raise EngineLimit("groupby result shape")
        if isinstance(res, pd.Series):
            return pd.Series(_plainlist([_agg(name, [obj.values[p] for p in o], q) for o in order]), index=res.index, name=res.name)
        out = np.empty(res.shape, dtype=object)
        if list(res.columns) != list(obj.columns):
            raise EngineLimit("groupby result columns")
        vals = obj.values
        for gi, o in enumerate(order):
            for j in range(out.shape[1]):
                out[gi, j] = _agg(name, [vals[p, j] for p in o], q)
        return pd.DataFrame(out, index=res.index, columns=res.columns)

    METHODS.setdefault(name, []).append(((pd.core.groupby.GroupBy,), g))


for _n in ("mean", "sum", "median", "quantile", "min", "max", "first", "last", "count"):
    _group_method(_n)


@meth("get", dict)
def _dict_get(d, f, k, default=None):
    if not isinstance(k, (SymStr, SymReal)):
        return NotImplemented
    found, v = lookup(d, k)
    return v if found else default


@meth("pivot_table", pd.DataFrame)
def _pivot_table(s, f, values=None, index=None, columns=None, aggfunc="mean", **k):
    symcols = [c for c in s.columns if s[c].dtype == object and has_sym(s[c].values)]
    if not symcols:
        return NotImplemented
    if len(symcols) != 1 or aggfunc not in ("mean", "sum", "first", "last", "min", "max"):
        raise EngineLimit("pivot table")
    col = symcols[0]
    stand = s.copy()
    na = [_na(v) for v in s[col].values]
    stand[col] = [math.nan if n else float(i) for i, n in enumerate(na)]
    lo = stand.pivot_table(values=values, index=index, columns=columns, aggfunc="min", **k)
    cnt = stand.pivot_table(values=values, index=index, columns=columns, aggfunc="count", **k)
    hi = stand.pivot_table(values=values, index=index, columns=columns, aggfunc="max", **k)
    sm = stand.pivot_table(values=values, index=index, columns=columns, aggfunc="sum", **k)
    vals = list(s[col].values)
    out = np.empty(lo.shape, dtype=object)
    cnt = cnt.reindex(index=lo.index, columns=lo.columns)
    for i in range(lo.shape[0]):
        for j in range(lo.shape[1]):
            v = lo.iloc[i, j]
            if _na(v):
                out[i, j] = float("nan")
                continue
            n = int(cnt.iloc[i, j])
            rows = [int(v)]
            if n == 2:
                rows.append(int(hi.iloc[i, j]))
            elif n == 3:
                rows += [int(hi.iloc[i, j]), int(sm.iloc[i, j] - v - hi.iloc[i, j])]
                rows.sort()
            elif n > 3:
                raise EngineLimit("pivot duplicates")
            out[i, j] = _agg(aggfunc, [vals[r] for r in rows])
    return pd.DataFrame(out, index=lo.index, columns=lo.columns)


@meth("interpolate", pd.DataFrame, pd.Series)
def _pd_interp(s, f, *a, **k):
    if frame_sym(s):
        raise EngineLimit("pandas interpolation")
    return NotImplemented


# pandas keeps symbolic data in plain object arrays, also where its own code computes with them


def _plain_data(fn, at=0, pos=None):
    @functools.wraps(fn)
    def g(*a, **k):
        if len(a) > at and isinstance(a[at], SymNd):
            a = a[:at] + (base(a[at]),) + a[at + 1:]
        elif isinstance(k.get(pos), SymNd):
            k = dict(k, **{pos: base(k[pos])})
        return fn(*a, **k)

    return g


def patch_pandas():
    import pandas.core.internals.blocks as blocks
    import pandas.core.internals.construction as construction
    import pandas.core.internals.managers as managers
    import pandas.core.series as series

    f = _plain_data(series.sanitize_array, 0, "data")
    series.sanitize_array = construction.sanitize_array = f
    mb = _plain_data(blocks.make_block, 0, "values")
    blocks.make_block = managers.make_block = mb
    blocks.Block.__init__ = _plain_data(blocks.Block.__init__, 1, "values")
    blocks.Block.make_block_same_class = _plain_data(blocks.Block.make_block_same_class, 1, "values")


patch_pandas()

from . import offsets  # noqa

offsets.patch()
