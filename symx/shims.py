"""Loader that executes /repo's rocketry source (AST-instrumented, regenerated on
every run) over symbolic values, and stand-ins for the C modules it calls."""
import ast
import builtins
import calendar as _calendar
import datetime as _dt
import os
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import re as _re
import sys
import time as _time
import types

from . import values as V
from .values import (Sym, SymBool, SymInt, SymFrac, SymTimedelta, SymDatetime, SymDate, SymTimeOfDay,
                     SymStr, SymChar, is_sym, Unsupported)

REPO = os.environ.get("SYMX_REPO", "/repo")     # development aid; registered commands never set it
PKG = "rocketry"

PYTYPE = {SymBool: bool, SymInt: int, SymFrac: float, SymTimedelta: _dt.timedelta, SymDatetime: _dt.datetime,
          SymDate: _dt.date, SymTimeOfDay: _dt.time, SymStr: str}

_RESET = []


def reset_run():
    for f in _RESET:
        f()


def pytype(x):
    return PYTYPE.get(type(x), type(x))


# ------------------------------------------------------------ datetime module
class _M(type):
    def __instancecheck__(cls, x):
        real = cls.__dict__.get("_real")
        if real is None:
            return type.__instancecheck__(cls, x)
        if is_sym(x):
            return issubclass(pytype(x), real)
        return isinstance(x, real)

    def __subclasscheck__(cls, c):
        real = cls.__dict__.get("_real")
        if real is None:
            return type.__subclasscheck__(cls, c)
        return issubclass(c, real)


class timedelta(_dt.timedelta, metaclass=_M):
    _real = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(is_sym(a) for a in args):
            return _dt.timedelta(*args)
        mult = (86400000000, 1000000, 1, 1000, 60000000, 3600000000, 604800000000)
        tot = 0
        fr = None
        for a, m in zip(args, mult):
            if isinstance(a, (SymFrac, float)):
                t = SymFrac.of(a) * m
                fr = t if fr is None else fr + t
            elif not (isinstance(a, int) and a == 0):
                tot = a * m + tot
        if fr is not None:
            r = (fr + tot).round_half_even()
        else:
            r = tot
        if isinstance(r, SymInt) and r.lo is None:
            # timedelta range
            pass
        return SymTimedelta(r)


class tzinfo_(_dt.tzinfo):
    pass


class SymTz(_dt.tzinfo):
    """Fixed, symbolic UTC offset."""
    def __init__(self, off):
        self.off = off

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return None

    def fromutc(self, dt):
        # of a plain datetime
        return SymDatetime(V.tz_off_us(self) + V.dt_us(dt.replace(tzinfo=None)), self)

    def tzname(self, dt):
        return "SYM"

    def __deepcopy__(self, memo):
        return self


class datetime(_dt.datetime, metaclass=_M):
    _real = _dt.datetime

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        args = (year, month, day, hour, minute, second, microsecond)
        if any(is_sym(a) for a in args):
            return V.make_datetime(year, month, day, hour, minute, second, microsecond, tzinfo)
        return _dt.datetime(*args, tzinfo=tzinfo, fold=fold)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if is_sym(t):
            if getattr(t, "dt", None) is not None:
                d = SymDatetime(t.dt.T, None)
                d._c, d._p = t.dt._c, t.dt._p
                if tz is None:
                    return d
                d = SymDatetime(d.T, _dt.timezone.utc)
                d._c, d._p = t.dt._c, t.dt._p
                return d.astimezone(tz)
            us = SymFrac.of(t) * 1000000
            us = us.round_half_even()
            if tz is None:
                return SymDatetime(us, None)     # TZ=UTC
            return SymDatetime(us + V.tz_off_us(tz), tz)
        return _dt.datetime.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        if is_sym(t):
            return cls.fromtimestamp(t)
        return _dt.datetime.utcfromtimestamp(t)

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time_shim.time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time_shim.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time_shim.time())

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        if is_sym(d) or is_sym(t):
            base = d.dt if isinstance(d, SymDate) else SymDatetime.of(d) if isinstance(d, (_dt.datetime, SymDatetime)) \
                else SymDatetime.of(_dt.datetime(d.year, d.month, d.day))
            tz = t.tzinfo if tzinfo is True else tzinfo
            return base.replace(hour=t.hour, minute=t.minute, second=t.second, microsecond=t.microsecond, tzinfo=tz)
        if tzinfo is True:
            return _dt.datetime.combine(d, t)
        return _dt.datetime.combine(d, t, tzinfo)

    @classmethod
    def fromisoformat(cls, s):
        if is_sym(s):
            s = s.concretize()
        return _dt.datetime.fromisoformat(s)

    @classmethod
    def strptime(cls, s, f):
        if is_sym(s):
            s = s.concretize()
        return _dt.datetime.strptime(s, f)

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            return SymDatetime((n - 719163) * V.US_DAY)
        return _dt.datetime.fromordinal(n)


class date(_dt.date, metaclass=_M):
    _real = _dt.date

    def __new__(cls, year, month, day):
        if any(is_sym(a) for a in (year, month, day)):
            return V.make_datetime(year, month, day).date()
        return _dt.date(year, month, day)

    @classmethod
    def today(cls):
        return datetime.now().date()

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            return datetime.fromordinal(n).date()
        return _dt.date.fromordinal(n)


class time(_dt.time, metaclass=_M):
    _real = _dt.time

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        if any(is_sym(a) for a in (hour, minute, second, microsecond)):
            return V.make_datetime(2000, 1, 1, hour, minute, second, microsecond).time()
        return _dt.time(hour, minute, second, microsecond, tzinfo, fold=fold)


for _c, _n in ((timedelta, "timedelta"), (datetime, "datetime"), (date, "date"), (time, "time")):
    _c.__module__ = "datetime"
    _c.__qualname__ = _n


class _ModProxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real_mod"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real_mod"], name)


datetime_shim = _ModProxy(_dt, timedelta=timedelta, datetime=datetime, date=date, time=time)


# ------------------------------------------------------------ time module
class Clock:
    func = None


def _clock_time():
    return Clock.func() if Clock.func is not None else _time.time()


def _clock_reset():
    Clock.func = None


_RESET.append(_clock_reset)
time_shim = _ModProxy(_time, time=_clock_time)


# ------------------------------------------------------------ calendar
def _monthrange(y, m):
    if not (is_sym(y) or is_sym(m)):
        return _calendar.monthrange(y, m)
    if not (bool(m >= 1) and bool(m <= 12)):
        raise _calendar.IllegalMonthError(0)
    D = V.days_from_civil(y, m, 1)
    return (D + 3) % 7, V.month_len(y, m)


def _isleap(y):
    return V.is_leap(y) if is_sym(y) else _calendar.isleap(y)


def _cweekday(y, m, d):
    if any(is_sym(v) for v in (y, m, d)):
        return (V.days_from_civil(y, m, d) + 3) % 7
    return _calendar.weekday(y, m, d)


calendar_shim = _ModProxy(_calendar, monthrange=_monthrange, isleap=_isleap, weekday=_cweekday)


# ------------------------------------------------------------ dateutil parser
def _parse_dt(s, *a, **k):
    import dateutil.parser
    if not is_sym(s):
        return dateutil.parser.parse(s, *a, **k)
    # Only clock strings: H[H]:MM[:SS[.f{1,6}]]
    parts = s.strip().split(":")
    if len(parts) in (2, 3) and all(1 <= len(p) <= 2 and _isdig(p) for p in parts[:2]):
        h, mi = _int(parts[0]), _int(parts[1])
        sec, us = 0, 0
        if len(parts) == 3:
            p = parts[2]
            if "." in p:
                ss, ff = p.split(".")
                if not (1 <= len(ff) <= 6 and _isdig(ff)):
                    return dateutil.parser.parse(s.concretize())
                us = _int(ff.ljust(6, "0"))
            else:
                ss = p
            if not (1 <= len(ss) <= 2 and _isdig(ss)):
                return dateutil.parser.parse(s.concretize())
            sec = _int(ss)
        # dateutil raises ParserError (a ValueError) for out of range components
        return V.make_datetime(2000, 1, 1, h, mi, sec, us)
    return dateutil.parser.parse(s.concretize(), *a, **k)


def _isdig(p):
    return p.isdigit()


class _Lazy:
    pass


def _dateutil_shims():
    import dateutil
    import dateutil.parser
    pshim = _ModProxy(dateutil.parser, parse=_parse_dt)
    return _ModProxy(dateutil, parser=pshim), pshim


# ------------------------------------------------------------ re
class SymMatch:
    def __init__(self, s, spans, names, regs):
        self.string = s
        self._g = regs
        self._names = names

    def _i(self, k):
        return self._names[k] if isinstance(k, str) else k

    def group(self, *ks):
        if not ks:
            ks = (0,)
        out = []
        for k in ks:
            sp = self._g.get(self._i(k))
            out.append(None if sp is None else self.string[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, k):
        return self.group(k)

    def groups(self, default=None):
        n = self._n
        return tuple(default if self._g.get(i) is None else self.group(i) for i in range(1, n + 1))

    def groupdict(self, default=None):
        return {k: (default if self._g.get(i) is None else self.group(i)) for k, i in self._names.items()}

    def span(self, k=0):
        return self._g.get(self._i(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


class _Matcher:
    """Backtracking matcher for the sre syntax tree; character tests may fork."""
    def __init__(self, pattern, flags):
        p = _re._parser.parse(pattern, flags)
        self.tree = p
        self.flags = p.state.flags
        self.names = dict(p.state.groupdict)
        self.n = p.state.groups - 1
        self.ic = bool(self.flags & _re.IGNORECASE)

    def ch_lit(self, c, code):
        if isinstance(c, str):
            if self.ic:
                return c.lower() == chr(code).lower()
            return ord(c) == code
        if self.ic and chr(code).lower() != chr(code).upper() and not (c.lo >= 48 and c.hi <= 57):
            return bool(V.lor(c.eq(chr(code).lower()), c.eq(chr(code).upper())))
        return bool(c.eq(chr(code)))

    def ch_in(self, c, items):
        neg = False
        hit = False
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                hit = hit or self.ch_lit(c, av)
            elif op == "RANGE":
                lo, hi = av
                if isinstance(c, str):
                    hit = hit or lo <= ord(c) <= hi or (self.ic and (lo <= ord(c.lower()) <= hi or lo <= ord(c.upper()) <= hi))
                else:
                    hit = hit or bool(c.in_range(lo, hi))
            elif op == "CATEGORY":
                hit = hit or self.ch_cat(c, str(av))
            else:
                raise Unsupported("regex set " + op)
            if hit:
                break
        return hit != neg

    def ch_cat(self, c, cat):
        neg = "_NOT_" in cat
        if isinstance(c, str):
            if "DIGIT" in cat:
                r = c.isdigit()
            elif "SPACE" in cat:
                r = c.isspace()
            else:
                r = c.isalnum() or c == "_"
        else:
            if not (c.lo >= 48 and c.hi <= 57):
                raise Unsupported("category on symbolic char")
            r = "SPACE" not in cat
        return r != neg

    def m(self, items, i, pos, regs, k):
        """match items[i:] at pos, then continuation k(pos, regs)"""
        if i == len(items):
            return k(pos, regs)
        op, av = items[i]
        op = str(op)
        s = self.s
        nxt = lambda p, r: self.m(items, i + 1, p, r, k)
        if op == "LITERAL":
            return nxt(pos + 1, regs) if pos < len(s) and self.ch_lit(s[pos], av) else None
        if op == "NOT_LITERAL":
            return nxt(pos + 1, regs) if pos < len(s) and not self.ch_lit(s[pos], av) else None
        if op == "ANY":
            return nxt(pos + 1, regs) if pos < len(s) and not (s[pos] == "\n") else None
        if op == "IN":
            return nxt(pos + 1, regs) if pos < len(s) and self.ch_in(s[pos], av) else None
        if op == "AT":
            a = str(av)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                return nxt(pos, regs) if pos == 0 else None
            if a in ("AT_END", "AT_END_STRING"):
                return nxt(pos, regs) if pos == len(s) else None
            if a in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                def w(q):
                    return 0 <= q < len(s) and (not isinstance(s[q], str) or s[q].isalnum() or s[q] == "_")
                b = w(pos - 1) != w(pos)
                return nxt(pos, regs) if b == (a == "AT_BOUNDARY") else None
            raise Unsupported("regex at " + a)
        if op == "SUBPATTERN":
            g, _, _, sub = av
            def fin(p, r):
                if g is not None:
                    r = dict(r)
                    r[g] = (pos, p)
                return nxt(p, r)
            return self.m(list(sub), 0, pos, regs, fin)
        if op == "BRANCH":
            for sub in av[1]:
                r = self.m(list(sub), 0, pos, regs, nxt)
                if r is not None:
                    return r
            return None
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            sub = list(sub)
            hi = 10 ** 9 if hi is _re._constants.MAXREPEAT else int(hi)
            greedy = op == "MAX_REPEAT"
            def rep(n, p, r):
                def more():
                    if n >= hi:
                        return None
                    return self.m(sub, 0, p, r, lambda p2, r2: rep(n + 1, p2, r2) if p2 > p else None)
                if n < lo:
                    return more()
                if greedy:
                    x = more()
                    return x if x is not None else nxt(p, r)
                x = nxt(p, r)
                return x if x is not None else more()
            return rep(0, pos, regs)
        if op == "GROUPREF":
            raise Unsupported("regex groupref")
        if op in ("ASSERT", "ASSERT_NOT"):
            d, sub = av
            if d < 0:
                raise Unsupported("lookbehind")
            r = self.m(list(sub), 0, pos, regs, lambda p, r: (p, r))
            if (r is not None) == (op == "ASSERT"):
                return nxt(pos, regs)
            return None
        raise Unsupported("regex op " + op)

    def run(self, s, kind, start=0):
        self.s = V.chars_of(s)
        n = len(self.s)
        starts = range(start, n + 1) if kind == "search" else [start]
        for st in starts:
            def fin(p, r):
                if kind == "fullmatch" and p != n:
                    return None
                return (p, r)
            res = self.m(list(self.tree), 0, st, {}, fin)
            if res is not None:
                p, r = res
                r = dict(r)
                r[0] = (st, p)
                mt = SymMatch(s, None, self.names, r)
                mt._n = self.n
                return mt
        return None

    def finditer(self, s):
        pos = 0
        while pos <= len(s):
            mt = self.run(s, "search", pos)
            if mt is None:
                return
            yield mt
            pos = mt.end() if mt.end() > mt.start() else mt.end() + 1


def _rx(pattern, flags=0):
    if isinstance(pattern, _re.Pattern):
        return _Matcher(pattern.pattern, pattern.flags)
    return _Matcher(pattern, int(flags))


def _re_split(pattern, s, maxsplit=0, flags=0):
    mt = _rx(pattern, flags)
    out, last = [], 0
    for m in mt.finditer(s):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(s[last:m.start()])
        out += list(m.groups())
        last = m.end()
    out.append(s[last:])
    return out


def _re_findall(pattern, s, flags=0):
    out = []
    for m in _rx(pattern, flags).finditer(s):
        g = m.groups()
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def _mk_re(name):
    real = getattr(_re, name)

    def f(pattern, s, *a, **k):
        if not is_sym(s):
            return real(pattern, s, *a, **k)
        flags = k.get("flags", a[-1] if a else 0)
        if name in ("search", "match", "fullmatch"):
            return _rx(pattern, flags).run(s, name)
        if name == "split":
            return _re_split(pattern, s)
        if name == "findall":
            return _re_findall(pattern, s, flags)
        if name == "finditer":
            return _rx(pattern, flags).finditer(s)
        raise Unsupported(name)
    return f


re_shim = _ModProxy(_re, **{n: _mk_re(n) for n in ("search", "match", "fullmatch", "split", "findall", "finditer")})


# ------------------------------------------------------------ builtins
def _isinstance(x, t):
    if is_sym(x):
        pt = pytype(x)
        def one(t):
            if isinstance(t, tuple):
                return any(one(u) for u in t)
            if isinstance(t, types.UnionType):
                return any(one(u) for u in t.__args__)
            if t in (timedelta, datetime, date, time):
                t = t._real
            return issubclass(pt, t)
        return one(t)
    return builtins.isinstance(x, t)


def _int(x=0, *a, **k):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymFrac):
        return x.__trunc__()
    if isinstance(x, SymStr):
        return x.to_int()
    return int(x, *a, **k)


def _float(x=0.0):
    if isinstance(x, SymFrac):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymFrac.of(x)
    if isinstance(x, SymStr):
        return x.to_float()
    return float(x)


def _str(x="", *a):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return str(x.concretize())
    return str(x, *a)


def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def _type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return pytype(a[0])
    return type(*a)


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    if isinstance(x, (str, int, float, type(None))):
        return False
    if isinstance(x, FSet):
        return True
    if isinstance(x, (tuple, list, frozenset, set)):
        return any(has_sym(y, depth - 1) for y in x)
    d = getattr(x, "__dict__", None)
    if d and not isinstance(x, type):
        return any(has_sym(v, depth - 1) for v in d.values())
    return False


class FSet(Sym):
    """Insertion-ordered stand-in for a (frozen)set of objects with symbolic fields."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)

    def __contains__(self, x):
        return any(x is y or bool(x == y) for y in self.items)

    def __eq__(self, o):
        if not isinstance(o, (FSet, frozenset, set)):
            return False
        return all(x in self for x in o) and all(x in o for x in self.items)

    def __ne__(self, o):
        return not self == o

    def __or__(self, o):
        return FSet(self.items + [x for x in o if x not in self])

    __ror__ = __or__

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def __hash__(self):
        return len(self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)


PYTYPE[FSet] = frozenset


def _frozenset(x=()):
    x = list(x)
    if has_sym(x):
        return FSet(x)
    return frozenset(x)


def _set(x=()):
    x = list(x)
    if has_sym(x):
        return FSet(x)
    return set(x)


def _map(f, *its):
    return map(SHIM_BUILTINS.get(f, f) if _hashable(f) else f, *its)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _divmod(a, b):
    return divmod(a, b)


def _hash(x):
    return hash(x)


import operator as _op
CMP = {"__eq__": _op.eq, "__ne__": _op.ne, "__lt__": _op.lt, "__gt__": _op.gt, "__le__": _op.le, "__ge__": _op.ge}


def _getattr(obj, name, *d):
    if name in CMP and isinstance(obj, (int, float, str, _dt.datetime, _dt.timedelta)) and not is_sym(obj):
        m = getattr(obj, name, *d)
        return lambda o: CMP[name](obj, o) if is_sym(o) else m(o)
    return getattr(obj, name, *d)


SHIM_BUILTINS = {
    getattr: _getattr, isinstance: _isinstance, int: _int, float: _float, str: _str, bool: _bool, type: _type,
    frozenset: _frozenset, set: _set, map: _map,
}
WATCH = {"getattr", "isinstance", "int", "float", "str", "bool", "type", "frozenset", "set", "map", "min", "max"}
RX_METHS = {"fullmatch", "match", "search", "split", "findall", "finditer"}
METHS = RX_METHS | {"join"} | set(CMP)


def vf_call(f, *a, **k):
    try:
        g = SHIM_BUILTINS.get(f)
    except TypeError:
        g = None
    return (g or f)(*a, **k)


def vf_meth(obj, name, *a, **k):
    if isinstance(obj, _re.Pattern) and a and is_sym(a[0]) and name in RX_METHS:
        if name in ("search", "match", "fullmatch"):
            return _rx(obj).run(a[0], name)
        if name == "split":
            return _re_split(obj, a[0])
        if name == "findall":
            return _re_findall(obj, a[0])
        return _rx(obj).finditer(a[0])
    if name == "join" and isinstance(obj, str) and len(a) == 1:
        parts = list(a[0])
        if any(is_sym(p) for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out += list(obj)
                out += V.chars_of(p)
            return V.mkstr(out)
        return obj.join(parts)
    if name in CMP and len(a) == 1 and is_sym(a[0]):
        return _getattr(obj, name)(a[0])
    return getattr(obj, name)(*a, **k)


def vf_truth(x):
    return bool(x)


def _extreme(f, pick):
    def g(*a, **k):
        if len(a) >= 2 and not k and any(isinstance(x, V.SymInt) for x in a) and all(
                isinstance(x, (int, V.SymInt)) and not isinstance(x, bool) for x in a):
            r = a[0]
            for x in a[1:]:
                r = V.ite(pick(x, r), x, r)
            los = [V.bounds(x)[0] for x in a]
            his = [V.bounds(x)[1] for x in a]
            if isinstance(r, V.SymInt):
                r = V.SymInt(r.e, None if None in los else f(los), None if None in his else f(his))
            return r
        return f(*a, **k)
    return g


SHIM_BUILTINS[min] = _extreme(min, lambda x, r: x < r)
SHIM_BUILTINS[max] = _extreme(max, lambda x, r: x > r)


def vf_item(obj, key):
    """obj[key]: a table of integers indexed by a symbolic integer is an if-then-else term"""
    if type(key) is V.SymInt and type(obj) in (dict, list, tuple) and 0 < len(obj) <= 64:
        items = list(obj.items()) if type(obj) is dict else list(enumerate(obj))
        if all(type(k) is int and type(v) is int for k, v in items):
            inside = V.lor(*[key == k for k, _ in items])
            if bool(inside):
                r = items[-1][1]
                for k, v in items[:-1]:
                    r = V.ite(key == k, v, r)
                if isinstance(r, V.SymInt):
                    r = V.SymInt(r.e, min(v for _, v in items), max(v for _, v in items))
                return r
    return obj[key]


# ------------------------------------------------------------ AST
class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.fn = []

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.fn.append("<lambda>")
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.fn and self.fn[-1] == "__bool__" and n.value is not None:
            n.value = ast.copy_location(ast.Call(ast.Name("__vf_truth__", ast.Load()), [n.value], []), n.value)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.fn and not any(isinstance(x, ast.Slice) for x in ast.walk(n.slice)):
            return ast.copy_location(ast.Call(ast.Name("__vf_item__", ast.Load()), [n.value, n.slice], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in WATCH:
            return ast.copy_location(ast.Call(ast.Name("__vf_call__", ast.Load()), [f] + n.args, n.keywords), n)
        if isinstance(f, ast.Attribute) and f.attr in METHS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            return ast.copy_location(
                ast.Call(ast.Name("__vf_meth__", ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n


SHIM_MODULES = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0 and name in SHIM_MODULES:
        return SHIM_MODULES[name]
    if level == 0 and not fromlist and name.split(".")[0] in SHIM_MODULES:
        return SHIM_MODULES[name.split(".")[0]]
    return m


SHIM_DICT = None


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def is_package(self, name):
        return self.path.endswith("__init__.py")

    def get_code(self, name):
        src = self.get_data(self.path)
        tree = ast.parse(src, self.path)
        tree = Instrument().visit(tree)
        ast.fix_missing_locations(tree)
        LOADED[name] = self.path
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = SHIM_DICT
        exec(self.get_code(module.__name__), module.__dict__)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        if name.startswith(PKG + ".test."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [REPO] if name == PKG else path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        ld = Loader(name, spec.origin)
        return importlib.util.spec_from_file_location(name, spec.origin, loader=ld,
                                                      submodule_search_locations=spec.submodule_search_locations)


def install():
    global SHIM_DICT
    du, dup = _dateutil_shims()
    SHIM_MODULES.update({"datetime": datetime_shim, "time": time_shim, "calendar": calendar_shim, "re": re_shim,
                         "dateutil": du, "dateutil.parser": dup})
    d = dict(builtins.__dict__)
    d["__import__"] = _import
    d["__vf_call__"] = vf_call
    d["__vf_meth__"] = vf_meth
    d["__vf_truth__"] = vf_truth
    d["__vf_item__"] = vf_item
    SHIM_DICT = d
    assert PKG not in sys.modules, "rocketry imported before the symbolic loader"
    sys.meta_path.insert(0, Finder())


# ------------------------------------------------------------ coverage of real functions
FUNCS = {}


def trace_functions():
    mon = sys.monitoring
    tid = 4
    mon.use_tool_id(tid, "symx")

    def start(code, off):
        if code.co_filename.startswith(REPO + "/rocketry"):
            FUNCS[(code.co_filename[len(REPO) + 1:], code.co_qualname)] = code.co_firstlineno
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
