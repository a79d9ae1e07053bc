"""Contracts for the compiled helpers of pandas' date offsets, on symbolic instants (the real ones for others)."""
import datetime

import pandas.tseries.offsets as po

from .core import Sym, SymBool, ite, mkbool, to_arith
from .dt import DIM, SymDatetime, SymTimedelta, is_leap

TIMES = (SymDatetime,)


def ite_num(c, a, b):
    return ite(c, a, b) if isinstance(c, SymBool) else (a if c else b)


def days_in_month(y, m):
    if not isinstance(y, Sym) and not isinstance(m, Sym):
        return po_real["get_days_in_month"](y, m)
    r = 31
    for i, n in enumerate(DIM):
        if i == 1:
            n = ite_num(mkbool(is_leap(to_arith(y))), 29, 28)
        r = ite_num(m == i + 1, n, r)
    return r


def get_day_of_month(other, day_opt):
    if not isinstance(other, TIMES):
        return po_real["get_day_of_month"](other, day_opt)
    if day_opt == "start":
        return 1
    n = days_in_month(other.year, other.month)
    if day_opt == "end":
        return n
    if isinstance(day_opt, int):
        return ite_num(n < day_opt, n, day_opt)
    raise NotImplementedError(day_opt)


def shift_month(stamp, months, day_opt=None):
    if not isinstance(stamp, TIMES) and not isinstance(months, Sym):
        return po_real["shift_month"](stamp, months, day_opt)
    k = stamp.month + months - 1
    year, month = stamp.year + k // 12, k % 12 + 1
    if day_opt == "start":
        day = 1
    else:
        n = days_in_month(year, month)
        if day_opt == "end":
            day = n
        else:
            day = stamp.day if day_opt is None else day_opt
            day = ite_num(day < n, day, n)
    return stamp.replace(year=year, month=month, day=day)


def roll_convention(other, n, compare):
    if not any(isinstance(v, Sym) for v in (other, n, compare)):
        return po_real["roll_convention"](other, n, compare)
    if n > 0:
        return n - 1 if other < compare else n
    return n + 1 if other > compare else n


def _roll(other, n, months_since, day_opt):
    day = get_day_of_month(other, day_opt)
    if n > 0:
        if (months_since < 0) | ((months_since == 0) & (other.day < day)):
            return n - 1
    elif (months_since > 0) | ((months_since == 0) & (other.day > day)):
        return n + 1
    return n


def roll_qtrday(other, n, month, day_opt, modby=3):
    if not isinstance(other, TIMES):
        return po_real["roll_qtrday"](other, n, month, day_opt, modby)
    return _roll(other, n, other.month - month if modby == 12 else other.month % modby - month % modby, day_opt)


def roll_yearday(other, n, month, day_opt):
    if not isinstance(other, TIMES):
        return po_real["roll_yearday"](other, n, month, day_opt)
    return _roll(other, n, other.month - month, day_opt)


def shift_day(other, days):
    if not isinstance(other, TIMES):
        return po_real["shift_day"](other, days)
    return other + datetime.timedelta(days=1) * days if isinstance(days, Sym) else other + datetime.timedelta(days=days)


class Over:
    """A compiled module with some functions replaced."""

    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


class _Also(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls._real, cls._sym))

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


def Also(real, sym):
    """The compiled class `real` of which symbolic values are instances too."""
    from . import calls

    return _Also(real.__name__, (), {"_real": real, "_sym": sym, "_make": staticmethod(lambda *a, **k: calls.call(real, *a, **k))})


po_real = {}


def patch():
    if po_real:
        return
    lib, cc = po.liboffsets, po.ccalendar
    for n in ("get_day_of_month", "roll_convention", "roll_qtrday", "shift_day"):
        po_real[n] = getattr(lib, n)
    po_real["get_days_in_month"] = cc.get_days_in_month
    for n in ("shift_month", "roll_yearday"):
        po_real[n] = getattr(po, n)
    po.liboffsets = Over(lib, get_day_of_month=get_day_of_month, roll_convention=roll_convention, roll_qtrday=roll_qtrday, shift_day=shift_day)
    po.ccalendar = Over(cc, get_days_in_month=days_in_month)
    cls = po.DateOffset
    po_real["_get_offset_day"] = cls._get_offset_day

    def offset_day(self, other):
        if isinstance(other, TIMES):
            return get_day_of_month(other, self._day_opt)
        return po_real["_get_offset_day"](self, other)

    cls._get_offset_day = offset_day
    po.datetime, po.timedelta = Also(po.datetime, SymDatetime), Also(po.timedelta, SymTimedelta)
    po.shift_month, po.roll_yearday = shift_month, roll_yearday
