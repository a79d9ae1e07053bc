"""Object arrays of symbolic values that behave like numeric numpy arrays."""
import datetime
import math

import numpy as np
import z3

from .core import (
    BOOL_RESULT,
    EngineLimit,
    Sym,
    SymBool,
    SymInt,
    SymReal,
    UFUNCS,
    _SymNum,
    ctx,
    is_num,
    mkbool,
    mknum,
    simp,
    to_arith,
    to_real,
    zbool,
    ztrunc,
)
from .dt import SymDatetime, SymDT64, SymTD64, SymTimedelta, lift_time

_base_dtype = np.ndarray.dtype.__get__


def is_obj(a):
    return isinstance(a, np.ndarray) and _base_dtype(a) == object


def arr_has_sym(a):
    return is_obj(a) and any(isinstance(v, Sym) for v in base(a).ravel().tolist())


def base(a):
    return a.view(np.ndarray) if type(a) is not np.ndarray else a


def scalar(x):
    """numpy scalar -> python/symbolic scalar"""
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return lift_time(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return scalar(base(x)[()])
    return x


def cast_scalar(x, t):
    t = np.dtype(t)
    x = scalar(x)
    k = t.kind
    if isinstance(x, (SymDT64, SymTD64)):
        return x.astype(t)
    if isinstance(x, SymDatetime):
        if k == "M":
            return SymDT64(x.e).astype(t)
        if k == "O":
            return x
        raise TypeError("float() argument must be a string or a number, not 'datetime.datetime'")
    if isinstance(x, SymTimedelta):
        return SymTD64(x.e).astype(t) if k == "m" else x
    if k == "O":
        return x
    if isinstance(x, SymBool):
        if k == "b":
            return x
        x = SymInt(to_arith(x))
    if isinstance(x, _SymNum):
        if k == "f":
            return SymReal(simp(to_real(x.e)))
        if k in "iu":
            return SymInt(simp(ztrunc(x.e)))
        if k == "b":
            return x != 0
        if k == "M":
            u = np.datetime_data(t)[0]
            return SymDT64(simp(ztrunc(x.e)), u)
        if k == "m":
            return SymTD64(simp(ztrunc(x.e)), np.datetime_data(t)[0])
        raise EngineLimit("cast to {}".format(t))
    if isinstance(x, Sym):
        if k in "fiu":
            return x.__cast_number__(t)
        if k in "US":
            return x
        raise EngineLimit("cast of {} to {}".format(type(x).__name__, t))
    r = np.array([x], dtype=object).astype(t)[0]
    return lift_time(r) if k in "mM" else r.item()


class SymNd(np.ndarray):
    """Object array with a virtual dtype."""

    __array_priority__ = 1500

    def __array_finalize__(self, obj):
        self._vobj = False

    @property
    def dtype(self):
        b = base(self)
        if _base_dtype(self) != object:
            return _base_dtype(self)
        if self._vobj:
            return np.dtype(object)
        kinds = set()
        for v in b.ravel().tolist():
            if isinstance(v, SymDT64):
                kinds.add("M" + v.unit)
            elif isinstance(v, SymTD64):
                kinds.add("ms")
            elif isinstance(v, SymReal) or isinstance(v, float):
                kinds.add("f")
            elif isinstance(v, SymBool) or isinstance(v, bool):
                kinds.add("b")
            elif isinstance(v, (SymInt, int)):
                kinds.add("i")
            else:
                kinds.add("O")
        if kinds <= {"f", "i"} and "f" in kinds:
            return np.dtype("float64")
        if kinds == {"i"}:
            return np.dtype("int64")
        if kinds == {"b"}:
            return np.dtype(bool)
        if len(kinds) == 1:
            (k,) = kinds
            if k[0] in "Mm":
                return np.dtype(("datetime64[{}]" if k[0] == "M" else "timedelta64[{}]").format(k[1:]))
        return np.dtype(object) if kinds else np.dtype("float64")

    def astype(self, t, *args, **kwargs):
        if isinstance(t, str) and t == "object":
            t = object
        t = np.dtype(t)
        b = base(self)
        if _base_dtype(self) != object:
            return b.astype(t)
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            out[i] = cast_scalar(b[i], t)
        if not arr_has_sym(out) and t.kind in "fiubM":
            if t.kind == "M":
                return out.astype(t)
            if t.kind in "b":
                return out.astype(bool)
        r = out.view(SymNd)
        if t.kind == "O":
            r._vobj = True
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array__(self, dtype=None):
        b = base(self)
        return b if dtype is None or np.dtype(dtype) == object else b.astype(dtype)

    def _key(self, key):
        if isinstance(key, tuple):
            return tuple(self._key(k) for k in key)
        if isinstance(key, list) and any(isinstance(k, SymBool) for k in key):
            return [bool(k) for k in key]
        if isinstance(key, np.ndarray) and is_obj(key) and key.ndim:
            b = base(key).ravel().tolist()
            if b and all(isinstance(k, (bool, np.bool_, SymBool)) for k in b):
                return np.array([bool(k) for k in b]).reshape(key.shape)
            return np.array([int(k) for k in b], dtype=int).reshape(key.shape)
        return key

    def __getitem__(self, key):
        return super().__getitem__(self._key(key))

    def __setitem__(self, key, val):
        if not self._vobj and self.size and self.dtype.kind == "i":
            # integer arrays truncate what is assigned
            if isinstance(val, np.ndarray) and as_symnd(val).dtype.kind == "f":
                val = as_symnd(val).astype("int64")
            elif isinstance(val, (SymReal, float)):
                val = cast_scalar(val, "int64")
        super().__setitem__(self._key(key), val)

    def mean(self, axis=None, dtype=None, out=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def round(self, decimals=0, out=None):
        if decimals != 0:
            raise EngineLimit("round")
        return np.rint(self)

    def tolist(self):
        return base(self).tolist()

    def __repr__(self):
        return "SymNd({})".format(base(self).tolist())

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def nbytes(self):
        return self.size * 8


def as_symnd(x):
    """View an object array, or copy another array, as SymNd."""
    if isinstance(x, SymNd):
        return x
    if isinstance(x, np.ndarray):
        if _base_dtype(x) == object:
            return x.view(SymNd)
        k = _base_dtype(x).kind
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            v = x[i]
            out[i] = lift_time(v) if k in "mM" else v.item()
        return out.view(SymNd)
    out = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        out[i] = scalar(v)
    return out.view(SymNd)


def to_plain(a):
    """Array for code that knows nothing of symbolic values (pandas): real floats where possible."""
    if not isinstance(a, SymNd):
        return a
    b = base(a)
    if _base_dtype(a) != object:
        return b
    if a._vobj or arr_has_sym(b):
        return b
    k = a.dtype.kind
    if k in "fib":
        return b.astype(a.dtype)
    return b


def apply_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    for k in ("casting", "dtype", "subok", "order"):
        if k != "dtype":
            kwargs.pop(k, None)
    dtype = kwargs.pop("dtype", None)
    if kwargs.get("where", True) is True:
        kwargs.pop("where", None)
    for x in inputs:
        # other array-likes (pint quantities, openscm timeseries handles, pandas objects) take precedence
        if not isinstance(x, (Sym, np.ndarray, np.generic, list, tuple, int, float, bool, str, datetime.datetime, datetime.timedelta,
                              type(None))) and hasattr(type(x), "__array_ufunc__") and not isinstance(x, Sym):
            return NotImplemented
    if method != "__call__" or kwargs:
        if method == "reduce" and name in ("add", "maximum", "minimum", "multiply", "logical_and", "logical_or"):
            r = _reduce(name, inputs[0], kwargs)
            if r is not NotImplemented:
                return r
        ins = [base(x) if isinstance(x, np.ndarray) else x for x in inputs]
        ins = [_objarr(x) if isinstance(x, np.ndarray) and i == 0 else x for i, x in enumerate(ins)]
        r = getattr(ufunc, method)(*ins, **kwargs)
        return r.view(SymNd) if isinstance(r, np.ndarray) and is_obj(r) else r
    if name not in UFUNCS:
        ins = [base(x) if isinstance(x, np.ndarray) else x for x in inputs]
        ins = [_objarr(x) if isinstance(x, (np.ndarray, Sym)) else x for x in ins]
        if type(ufunc).__name__ == "ufunc" and ufunc.types and ufunc.types[0].strip("O->") == "" and len(ufunc.types) == 1:
            r = ufunc(*ins)  # np.frompyfunc
            return _wrap(r)
        raise EngineLimit("ufunc {}".format(name))
    f = UFUNCS[name]
    ins = [x if isinstance(x, np.ndarray) else (np.array(x, dtype=object) if isinstance(x, (list, tuple)) else _box(x)) for x in inputs]
    bc = np.broadcast(*[base(x) if isinstance(x, np.ndarray) else x for x in ins]) if len(ins) > 1 else None
    shape = bc.shape if bc is not None else ins[0].shape
    arrs = [np.broadcast_to(_objarr(base(x)), shape) for x in ins]
    res = np.empty(shape, dtype=object)
    boolres = name in BOOL_RESULT or name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not")
    for i in np.ndindex(*shape):
        res[i] = f(*[scalar(a[i]) for a in arrs])
    if shape == ():
        r = res[()]
        if out:
            out[0][...] = r
            return out[0]
        return r
    if boolres:
        r = np.array([bool(v) for v in res.ravel().tolist()], dtype=bool).reshape(shape)
    else:
        r = res.view(SymNd)
    if out:
        o = out[0]
        if is_obj(o):
            base(o)[...] = base(r)
        else:
            o[...] = base(r)  # converts (and concretises) elementwise
        return o
    return r


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _objarr(a):
    if isinstance(a, Sym):
        return _box(a)
    if is_obj(a):
        return base(a)
    return base(as_symnd(a))


def _wrap(r):
    if isinstance(r, np.ndarray) and is_obj(r):
        return r.view(SymNd)
    return r


def _reduce(name, a, kwargs):
    if not isinstance(a, np.ndarray):
        return NotImplemented
    axis = kwargs.get("axis", 0)
    if kwargs.get("keepdims") or kwargs.get("initial", np._NoValue) is not np._NoValue:
        return NotImplemented
    b = _objarr(a)
    f = UFUNCS[name]
    if isinstance(axis, tuple):
        axis = axis[0] if len(axis) == 1 else (None if len(axis) == b.ndim else NotImplemented)
        if axis is NotImplemented:
            return NotImplemented

    def red(vals):
        vals = list(vals)
        if not vals:
            if name == "add":
                return 0.0
            if name == "multiply":
                return 1.0
            if name == "logical_and":
                return True
            if name == "logical_or":
                return False
            raise ValueError("zero-size array to reduction operation {} which has no identity".format(name))
        r = scalar(vals[0])
        for v in vals[1:]:
            r = f(r, scalar(v))
        return r

    if axis is None or b.ndim == 1:
        r = red(b.ravel().tolist())
        return bool(r) if name.startswith("logical") else r
    b = np.moveaxis(b, axis, 0)
    out = np.empty(b.shape[1:], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = red(b[(slice(None),) + i].tolist())
    return out.view(SymNd)
