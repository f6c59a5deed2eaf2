"""What harnesses use: logical helpers that work on symbolic and plain values."""
from .values import (land, lor, lnot, implies, iff, ite, is_sym, SymBool, SymInt, month_len, days_from_civil, is_leap)
from .check import Case


def eq(a, b):
    return a == b


def count(bs):
    t = 0
    for b in bs:
        t = ite(b, 1, 0) + t
    return t


def date_of(t, tz=None):
    """datetime of a timestamp, symbolic or not (local time is UTC)"""
    from .shims import datetime
    return datetime.fromtimestamp(t, tz)


def zone_of(off):
    """fixed timezone of an offset, symbolic or not"""
    import datetime as _dt
    if is_sym(off):
        from .shims import SymTz
        return SymTz(off)
    return _dt.timezone(off)


def minutes_of(n):
    from .shims import timedelta
    return timedelta(minutes=n)
