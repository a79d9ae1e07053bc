"""Symbolic instants (datetime64 / timedelta64 / datetime)."""
import datetime

import numpy as np
import z3

from .core import (
    EngineLimit,
    Sym,
    SymBool,
    SymInt,
    SymReal,
    _SymNum,
    apply_ufunc,
    const_value,
    ctx,
    is_num,
    mkbool,
    mknum,
    simp,
    to_arith,
    to_real,
    ztrunc,
)


def CTX():
    from . import core

    return core.CTX


UNIT_SECONDS = {"s": 1, "m": 60, "h": 3600, "D": 86400, "W": 604800}
EPOCH = datetime.datetime(1970, 1, 1)


def zdiv(a, n):
    """Floor division by a positive constant."""
    return a / n


def leaps(n):
    return zdiv(n, 4) - zdiv(n, 100) + zdiv(n, 400)


_L1969 = 1969 // 4 - 1969 // 100 + 1969 // 400


def year_start_days(y):
    """Days from 1970-01-01 to 1 January of year y."""
    r = simp(365 * (y - 1970) + leaps(y - 1) - _L1969)
    if CTX() is not None and const_value(r) is None:
        _year_lengths(simp(y), r)
    return r


def _year_lengths(y, r):
    """Adds the fact that among k < 100 years there are floor(k / 4) - 1 to ceil(k / 4) leap years."""
    known = ctx().cache.setdefault("year starts", {})
    if y.get_id() in known or len(known) > 12:
        return
    for y2, r2 in known.values():
        k = const_value(simp(y - y2))
        if k is not None and 0 < abs(k) < 100:
            k, d = (k, r - r2) if k > 0 else (-k, r2 - r)
            ctx().assume(z3.And(d >= 365 * k + k // 4 - 1, d <= 365 * k - (-k // 4)))
    known[y.get_id()] = (y, r)


def is_leap(y):
    return simp(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def civil(days):
    """(year, month, day, leap) of a day number; fresh integers fixed by constraints."""
    days = simp(days)
    c = const_value(days)
    if c is not None:
        d = np.datetime64(int(c), "D").item()
        if isinstance(d, datetime.date):
            return z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day)
    cache = ctx().cache.setdefault("civil", {})
    key = days.get_id()
    if key in cache:
        return cache[key][:3]
    for v in list(cache.values()):
        if ctx().implied(days == v[3]):
            cache[key] = v[:3] + (days,)
            return v[:3]
    y = ctx().fresh_int("year")
    ctx().assume(z3.And(year_start_days(y) <= days, days < year_start_days(y + 1)))
    doy = days - year_start_days(y)
    lp = is_leap(y)
    starts = [z3.IntVal(c) if i < 2 else z3.If(lp, z3.IntVal(c + 1), z3.IntVal(c)) for i, c in enumerate(CUM)]
    m = z3.Sum([z3.If(doy >= s, 1, 0) for s in starts])
    st = starts[0]
    for s in starts[1:]:
        st = z3.If(doy >= s, s, st)
    mv, dv = ctx().fresh_int("month"), ctx().fresh_int("day")
    ctx().assume(z3.And(mv == m, dv == doy - st + 1, mv >= 1, mv <= 12, dv >= 1, dv <= 31))
    cache[key] = (y, mv, dv, days)
    return y, mv, dv


def days_from_civil(y, m, d):
    lp = is_leap(y)
    st = z3.IntVal(0)
    if isinstance(m, int):
        st = z3.IntVal(CUM[m - 1])
        if m > 2:
            st = st + z3.If(lp, 1, 0)
    else:
        for i in range(1, 12):
            st = z3.If(m >= i + 1, z3.IntVal(CUM[i]) + (z3.If(lp, 1, 0) if i >= 2 else 0), st)
    return simp(year_start_days(y) + st + d - 1)


def dt_seconds(x):
    """Seconds since the epoch of a concrete instant (exact) or None."""
    if isinstance(x, np.datetime64):
        if np.isnat(x):
            return None
        s = x.astype("datetime64[s]")
        if s != x:
            raise EngineLimit("sub-second instant")
        return int(s.astype("int64"))
    if isinstance(x, datetime.datetime):
        if x.tzinfo is not None or x.microsecond:
            raise EngineLimit("time zone or sub-second instant")
        d = x - EPOCH
        return d.days * 86400 + d.seconds
    if isinstance(x, datetime.date):
        return (datetime.datetime(x.year, x.month, x.day) - EPOCH).days * 86400
    return None


def td_seconds(x):
    if isinstance(x, np.timedelta64):
        if np.isnat(x):
            return None
        s = x.astype("timedelta64[s]")
        if s != x:
            raise EngineLimit("sub-second period")
        return int(s.astype("int64"))
    if isinstance(x, datetime.timedelta):
        if x.microseconds:
            raise EngineLimit("sub-second period")
        return x.days * 86400 + x.seconds
    return None


class _SymTime(Sym):
    __slots__ = ("e", "unit")
    __array_priority__ = 2000

    def __init__(self, e, unit="s"):
        self.e = e
        self.unit = unit

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def isnat(self):
        return False

    def _seconds_of(self, o):
        raise NotImplementedError

    def _cmp(self, o, f):
        s = self._seconds_of(o)
        if s is None:
            return NotImplemented
        return mkbool(f(self.seconds, s))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        s = self._seconds_of(o)
        return False if s is None else mkbool(self.seconds == s)

    def __ne__(self, o):
        s = self._seconds_of(o)
        return True if s is None else mkbool(self.seconds != s)


class SymTD64(_SymTime):
    """timedelta64 (second resolution)."""

    __slots__ = ()

    def __init__(self, e, unit="s"):
        if unit in UNIT_SECONDS and unit != "s":
            e, unit = e * UNIT_SECONDS[unit], "s"
        if unit != "s":
            raise EngineLimit("timedelta unit " + unit)
        super().__init__(simp(e), "s")

    @property
    def seconds(self):
        return self.e

    @property
    def dtype(self):
        return np.dtype("timedelta64[s]")

    def _seconds_of(self, o):
        if isinstance(o, (SymTD64, SymTimedelta)):
            return o.e
        s = td_seconds(o)
        return None if s is None else z3.IntVal(s)

    def __add__(self, o):
        s = self._seconds_of(o)
        if s is not None:
            return SymTD64(self.e + s)
        if isinstance(o, (SymDT64, SymDatetime)):
            return o + self
        if dt_seconds(o) is not None:
            return SymDT64(z3.IntVal(dt_seconds(o)) + self.e)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTD64(self.e - s)

    def __rsub__(self, o):
        s = self._seconds_of(o)
        if s is not None:
            return SymTD64(s - self.e)
        if dt_seconds(o) is not None:
            return SymDT64(z3.IntVal(dt_seconds(o)) - self.e)
        return NotImplemented

    def __neg__(self):
        return SymTD64(-self.e)

    def __abs__(self):
        return SymTD64(z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, o):
        e = to_arith(o)
        if e is None or not (is_num(o) or isinstance(o, (_SymNum, SymBool))):
            return NotImplemented
        if z3.is_int(e):
            return SymTD64(self.e * e)
        return SymTD64(ztrunc(simp(to_real(self.e) * e)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        s = self._seconds_of(o)
        if s is not None:
            return SymReal(to_real(self.e)) / SymReal(to_real(s))
        r = SymReal(to_real(self.e)) / o
        if r is NotImplemented:
            return r
        return SymTD64(ztrunc(simp(to_real(to_arith(r)))))

    def __rtruediv__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymReal(to_real(s)) / SymReal(to_real(self.e))

    def __floordiv__(self, o):
        s = self._seconds_of(o)
        if s is not None:
            return SymInt(self.e) // SymInt(s)
        return SymTD64(to_arith(SymInt(self.e) // o))

    def __rfloordiv__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymInt(s) // SymInt(self.e)

    def __mod__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTD64(to_arith(SymInt(self.e) % SymInt(s)))

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        if t.kind == "m":
            u = np.datetime_data(t)[0]
            if u in UNIT_SECONDS:
                n = UNIT_SECONDS[u]
                return self if n == 1 else SymTD64(ztrunc_div(self.e, n), u)
            if u in ("generic",):
                return self
            raise EngineLimit("timedelta unit " + u)
        if t.kind in "iu":
            return SymInt(self.e)
        if t.kind == "f":
            return SymReal(to_real(self.e))
        if t.kind == "O":
            return SymTimedelta(self.e)
        raise EngineLimit("timedelta astype {}".format(t))

    def total_seconds(self):
        return SymReal(to_real(self.e))

    def __repr__(self):
        return "<symtd64 {}>".format(str(self.e)[:40])


def ztrunc_div(e, n):
    return simp(z3.If(e >= 0, e / n, -((-e) / n)))


class SymTimedelta(_SymTime):
    """datetime.timedelta"""

    __slots__ = ()

    @property
    def seconds_(self):
        return self.e

    @property
    def seconds(self):  # compared as seconds total in _cmp
        return self.e

    def _seconds_of(self, o):
        if isinstance(o, (SymTD64, SymTimedelta)):
            return o.e
        s = td_seconds(o)
        return None if s is None else z3.IntVal(s)

    def total_seconds(self):
        return SymReal(to_real(self.e))

    @property
    def days(self):
        return SymInt(simp(self.e / 86400))

    def __truediv__(self, o):
        s = self._seconds_of(o)
        if s is None:
            return NotImplemented
        return SymReal(to_real(self.e)) / SymReal(to_real(s))

    def __add__(self, o):
        s = self._seconds_of(o)
        if s is not None:
            return SymTimedelta(simp(self.e + s))
        return NotImplemented

    __radd__ = __add__

    def __mul__(self, o):
        e = to_arith(o)
        if e is None:
            return NotImplemented
        if z3.is_int(e):
            return SymTimedelta(simp(self.e * e))
        return SymTimedelta(ztrunc(simp(to_real(self.e) * e)))

    __rmul__ = __mul__


class SymDT64(_SymTime):
    """datetime64; `e` counts `unit`s since the epoch."""

    __slots__ = ()

    @property
    def seconds(self):
        if self.unit == "s":
            return self.e
        if self.unit in UNIT_SECONDS:
            return simp(self.e * UNIT_SECONDS[self.unit])
        if self.unit == "Y":
            return simp(year_start_days(self.e + 1970) * 86400)
        if self.unit == "M":
            y, m = self.e / 12 + 1970, self.e % 12 + 1
            return simp(days_from_civil(y, m, z3.IntVal(1)) * 86400)
        raise EngineLimit("datetime unit " + self.unit)

    @property
    def dtype(self):
        return np.dtype("datetime64[{}]".format(self.unit))

    def _seconds_of(self, o):
        if isinstance(o, (SymDT64, SymDatetime)):
            return o.seconds
        s = dt_seconds(o)
        return None if s is None else z3.IntVal(s)

    def _td(self, o):
        if isinstance(o, (SymTD64, SymTimedelta)):
            return o.e
        s = td_seconds(o)
        return None if s is None else z3.IntVal(s)

    def __add__(self, o):
        d = self._td(o)
        return NotImplemented if d is None else SymDT64(simp(self.seconds + d))

    __radd__ = __add__

    def __sub__(self, o):
        d = self._td(o)
        if d is not None:
            return SymDT64(simp(self.seconds - d))
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTD64(self.seconds - s)

    def __rsub__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTD64(s - self.seconds)

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        if t.kind == "M":
            u = np.datetime_data(t)[0]
            if u in ("generic", self.unit):
                return self
            if u == "s":
                return SymDT64(self.seconds)
            if u in UNIT_SECONDS:
                return SymDT64(simp(self.seconds / UNIT_SECONDS[u]), u)
            if u == "Y":
                y, _, _ = civil(simp(self.seconds / 86400))
                return SymDT64(simp(y - 1970), "Y")
            if u == "M":
                y, m, _ = civil(simp(self.seconds / 86400))
                return SymDT64(simp((y - 1970) * 12 + m - 1), "M")
            if u in ("ms", "us", "ns"):
                return self  # exact, finer resolution
            raise EngineLimit("datetime unit " + u)
        if t.kind in "iu":
            return SymInt(self.e)
        if t.kind == "f":
            return SymReal(to_real(self.e))
        if t.kind == "O":
            return SymDatetime(self.seconds)
        raise EngineLimit("datetime astype {}".format(t))

    def item(self):
        return SymDatetime(self.seconds)

    tolist = item

    def __repr__(self):
        return "<symdt64 {}>".format(str(self.e)[:40])


class SymDatetime(_SymTime):
    """datetime.datetime without time zone and microseconds."""

    __slots__ = ("starts_year",)  # the year term this instant is the start of
    microsecond = 0
    tzinfo = None

    @property
    def seconds(self):
        return self.e

    _seconds_of = SymDT64._seconds_of
    _td = SymDT64._td

    def __add__(self, o):
        d = self._td(o)
        return NotImplemented if d is None else SymDatetime(simp(self.e + d))

    __radd__ = __add__

    def __sub__(self, o):
        d = self._td(o)
        if d is not None:
            return SymDatetime(simp(self.e - d))
        ys, yo = getattr(self, "starts_year", None), getattr(o, "starts_year", None)
        if ys is not None and yo is not None:
            n = const_value(simp(ys - yo))
            if n == 1:
                return SymTimedelta(simp(z3.If(is_leap(yo), 366 * 86400, 365 * 86400)))
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTimedelta(simp(self.e - s))

    def __rsub__(self, o):
        s = self._seconds_of(o)
        return NotImplemented if s is None else SymTimedelta(simp(s - self.e))

    def _days(self):
        return simp(self.e / 86400)

    @property
    def year(self):
        return mknum(civil(self._days())[0])

    @property
    def month(self):
        return mknum(civil(self._days())[1])

    @property
    def day(self):
        return mknum(civil(self._days())[2])

    @property
    def hour(self):
        return mknum(simp((self.e % 86400) / 3600))

    @property
    def minute(self):
        return mknum(simp((self.e % 3600) / 60))

    @property
    def second(self):
        return mknum(simp(self.e % 60))

    def weekday(self):
        return mknum(simp((self._days() + 3) % 7))

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return mknum(simp(self._days() + 719163))

    def date(self):
        return SymDatetime(simp(self._days() * 86400))

    def timetuple(self):
        class T:
            pass

        t = T()
        t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday = (
            self.year, self.month, self.day, self.hour, self.minute, self.second, self.weekday())
        y, _, _ = civil(self._days())
        t.tm_yday = mknum(self._days() - year_start_days(y) + 1)
        return t

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=0):
        g = lambda v, c: c if v is None else v
        return make_datetime(g(year, self.year), g(month, self.month), g(day, self.day), g(hour, self.hour),
                             g(minute, self.minute), g(second, self.second))

    def __repr__(self):
        return "<symdatetime {}>".format(str(self.e)[:40])

    __str__ = __repr__

    def isoformat(self, *a):
        return repr(self)


def make_datetime(year, month=1, day=1, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
    if tzinfo is not None or not (isinstance(microsecond, int) and microsecond == 0):
        raise EngineLimit("time zone or microsecond")
    ok = (year >= 1) & (year <= 9999) & (month >= 1) & (month <= 12) & (day >= 1)
    if not ok:
        raise ValueError("date out of range")
    y, m, d = to_arith(year), month if isinstance(month, int) else to_arith(month), to_arith(day)
    mm = z3.IntVal(m) if isinstance(m, int) else m
    dim = z3.IntVal(31)
    for i, n in enumerate(DIM):
        dim = z3.If(mm == i + 1, z3.IntVal(n) + (z3.If(is_leap(y), 1, 0) if i == 1 else 0), dim)
    if not mkbool(d <= dim):
        raise ValueError("day is out of range for month")
    days = days_from_civil(y, m, d)
    r = SymDatetime(simp(days * 86400 + to_arith(hour) * 3600 + to_arith(minute) * 60 + to_arith(second)))
    if const_value(days) is None:  # the parts of the result are known
        for t in (days, r._days()):
            ctx().cache.setdefault("civil", {}).setdefault(t.get_id(), (simp(y), simp(mm), simp(d), t))
    if all(isinstance(v, int) for v in (month, day, hour, minute, second)) and (month, day, hour, minute, second) == (1, 1, 0, 0, 0):
        r.starts_year = y
    return r


def lift_time(x):
    if isinstance(x, np.datetime64):
        s = dt_seconds(x)
        return x if s is None else SymDT64(z3.IntVal(s))
    if isinstance(x, np.timedelta64):
        s = td_seconds(x)
        return x if s is None else SymTD64(z3.IntVal(s))
    return x
