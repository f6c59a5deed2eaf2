"""Symbolic values.  None of them subclasses int/str/datetime: C code that does
not go through Python's operator protocol fails loudly instead of silently
using a stale concrete value."""
import datetime as _dt
import z3
from . import engine
from .engine import PathAbort

US_DAY = 86400000000
EPOCH = _dt.datetime(1970, 1, 1)
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
YEAR_LO, YEAR_HI = 1970, 2099


class Unsupported(Exception):
    pass


def ctx():
    return engine.cur()


def dt_us(d):
    d = d.replace(tzinfo=None)
    return (d - EPOCH) // _dt.timedelta(microseconds=1)


def us_dt(us):
    return EPOCH + _dt.timedelta(microseconds=us)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise PathAbort("pickling a symbolic value")

    def __format__(self, spec):
        return f"<{type(self).__name__}>"

    def __str__(self):
        return f"<{type(self).__name__}>"


# ------------------------------------------------------------------- booleans
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(z3.If(self.e, 1, 0), 0, 1)

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._i()

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zb(o))
        if isinstance(o, (int, SymInt)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return land(self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return lor(self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Xor(self.e, zb(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return ~(1 if bool(self) else 0)

    def __repr__(self):
        return "<SymBool>"


def zb(x):
    """To z3 Bool."""
    if isinstance(x, SymBool):
        return x.e
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _fold(xs):
    return [x for x in xs]


def land(*xs):
    syms = []
    for x in xs:
        if is_sym(x):
            syms.append(zb(x))
        elif not x:
            return False
    if not syms:
        return True
    return SymBool(z3.And(*syms)) if len(syms) > 1 else SymBool(syms[0])


def lor(*xs):
    syms = []
    for x in xs:
        if is_sym(x):
            syms.append(zb(x))
        elif x:
            return True
    if not syms:
        return False
    return SymBool(z3.Or(*syms)) if len(syms) > 1 else SymBool(syms[0])


def lnot(x):
    if is_sym(x):
        return SymBool(z3.Not(zb(x)))
    return not x


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if is_sym(a) or is_sym(b):
        return SymBool(zb(a) == zb(b))
    return bool(a) == bool(b)


def truth(x):
    return bool(x)


# ------------------------------------------------------------------- integers
def zi(x):
    """To z3 Int."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymChar):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"zi({type(x)})")


def _num(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(x, SymFrac)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    if isinstance(x, int):
        return int(x), int(x)
    return None, None


def _badd(a, b):
    return None if a is None or b is None else a + b


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            return SymFrac.of(self) + o
        if not _num(o):
            return NotImplemented
        lo, hi = bounds(o)
        return SymInt(self.e + zi(o), _badd(self.lo, lo), _badd(self.hi, hi))

    __radd__ = __add__

    def __neg__(self):
        return SymInt(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float):
            return SymFrac.of(self) - o
        if not _num(o):
            return NotImplemented
        lo, hi = bounds(o)
        return SymInt(self.e - zi(o),
                      None if self.lo is None or hi is None else self.lo - hi,
                      None if self.hi is None or lo is None else self.hi - lo)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymFrac.of(o) - self
        if not _num(o):
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, float):
            return SymFrac.of(self) * o
        if not _num(o):
            return NotImplemented
        lo, hi = bounds(o)
        b = [None, None]
        if None not in (lo, hi, self.lo, self.hi):
            ps = [x * y for x in (lo, hi) for y in (self.lo, self.hi)]
            b = [min(ps), max(ps)]
        return SymInt(self.e * zi(o), *b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, float):
            return SymFrac.of(self) // o
        if isinstance(o, SymInt):
            o = ctx().concretize(o.e)
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        if o == 1:
            return self
        return SymInt(self.e / z3.IntVal(o),
                      None if self.lo is None else self.lo // o,
                      None if self.hi is None else self.hi // o)

    def __rfloordiv__(self, o):
        return o // ctx().concretize(self.e)

    def __mod__(self, o):
        if isinstance(o, float):
            return SymFrac.of(self) % o
        if isinstance(o, SymInt):
            o = ctx().concretize(o.e)
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if o < 0:
            return -((-self) % (-o))
        return SymInt(self.e % z3.IntVal(o), 0, o - 1)

    def __rmod__(self, o):
        return o % ctx().concretize(self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, ctx().concretize(self.e))

    def __truediv__(self, o):
        return SymFrac.of(self) / o

    def __rtruediv__(self, o):
        return SymFrac.of(o) / ctx().concretize(self.e)

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 4:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        return ctx().concretize(self.e) ** n

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        return SymInt(z3.If(self.e >= 0, self.e, -self.e), 0,
                      None if None in (self.lo, self.hi) else max(abs(self.lo), abs(self.hi)))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __and__(self, o): return ctx().concretize(self.e) & o
    def __or__(self, o): return ctx().concretize(self.e) | o
    def __invert__(self): return -self - 1

    # -- comparison
    def _cmp(self, o, op, f):
        if isinstance(o, float):
            return getattr(SymFrac.of(self), op)(o)
        if not _num(o):
            return NotImplemented
        lo, hi = bounds(o)
        if None not in (lo, hi, self.lo, self.hi):
            if op == "__lt__":
                if self.hi < lo: return True
                if self.lo >= hi: return False
            elif op == "__le__":
                if self.hi <= lo: return True
                if self.lo > hi: return False
            elif op == "__gt__":
                if self.lo > hi: return True
                if self.hi <= lo: return False
            elif op == "__ge__":
                if self.lo >= hi: return True
                if self.hi < lo: return False
            elif op == "__eq__":
                if self.hi < lo or self.lo > hi: return False
            elif op == "__ne__":
                if self.hi < lo or self.lo > hi: return True
        return SymBool(f(self.e, zi(o)))

    def __lt__(self, o): return self._cmp(o, "__lt__", lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, "__le__", lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, "__gt__", lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, "__ge__", lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, "__eq__", lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "__ne__", lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def _limit(self):
        if self.lo is not None and self.hi is not None:
            n = self.hi - self.lo + 1
            if n <= 400:
                return n + 1
        return 6

    def concretize(self):
        return ctx().concretize(self.e, self._limit())

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        return hash(self.concretize())

    def __repr__(self):
        return "<SymInt>"

    def bit_length(self):
        return self.concretize().bit_length()

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def is_integer(self):
        return True


# --------------------------------------------------------------- rationals/float
class SymFrac(Sym):
    """A Python float modelled as the exact rational n/den (den concrete)."""
    __slots__ = ("n", "den", "dt")

    def __init__(self, n, den, dt=None):
        self.n = n
        self.den = den
        self.dt = dt        # the naive UTC datetime this is the timestamp of (if known)

    @staticmethod
    def of(x):
        if isinstance(x, SymFrac):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymFrac(zi(x), 1)
        if isinstance(x, bool):
            return SymFrac(z3.IntVal(int(x)), 1)
        if isinstance(x, int):
            return SymFrac(z3.IntVal(x), 1)
        if isinstance(x, float):
            if x in (float("inf"), float("-inf")) or x != x:
                raise Unsupported("inf/nan with symbolic float")
            from fractions import Fraction
            fr = Fraction(x)
            fr2 = fr.limit_denominator(10 ** 9)
            if abs(float(fr2) - x) <= abs(x) * 1e-15:
                fr = fr2
            return SymFrac(z3.IntVal(fr.numerator), fr.denominator)
        raise Unsupported(f"SymFrac.of({type(x)})")

    def _norm(self, o):
        import math
        a, b = self, SymFrac.of(o)
        if a.den == b.den:
            return a.n, b.n, a.den
        l = a.den * b.den // math.gcd(a.den, b.den)
        return a.n * (l // a.den), b.n * (l // b.den), l

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float, SymInt, SymBool, SymFrac))

    def __add__(self, o):
        if not self._ok(o): return NotImplemented
        a, b, d = self._norm(o)
        return SymFrac(a + b, d)

    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o): return NotImplemented
        a, b, d = self._norm(o)
        return SymFrac(a - b, d)

    def __rsub__(self, o):
        if not self._ok(o): return NotImplemented
        a, b, d = self._norm(o)
        return SymFrac(b - a, d)

    def __neg__(self):
        return SymFrac(-self.n, self.den)

    def __abs__(self):
        return SymFrac(z3.If(self.n >= 0, self.n, -self.n), self.den)

    def __mul__(self, o):
        if not self._ok(o): return NotImplemented
        b = SymFrac.of(o)
        import math
        d = self.den * b.den
        # cancel with a concrete numerator
        bn = z3.simplify(b.n)
        if z3.is_int_value(bn):
            k = bn.as_long()
            g = math.gcd(k, d) or 1
            return SymFrac(self.n * (k // g), d // g)
        an = z3.simplify(self.n)
        if z3.is_int_value(an):
            k = an.as_long()
            g = math.gcd(k, d) or 1
            return SymFrac(b.n * (k // g), d // g)
        return SymFrac(self.n * b.n, d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o): return NotImplemented
        b = SymFrac.of(o)
        bn = z3.simplify(b.n)
        k = bn.as_long() if z3.is_int_value(bn) else ctx().concretize(b.n)
        if k == 0:
            raise ZeroDivisionError("float division by zero")
        import math
        num, den = b.den, k
        if den < 0:
            num, den = -num, -den
        d = self.den * den
        g = math.gcd(abs(num), d)
        return SymFrac(self.n * (num // g), d // g)

    def __rtruediv__(self, o):
        return SymFrac.of(o) / self

    def __floordiv__(self, o):
        q = self / o
        return SymFrac(q.n / z3.IntVal(q.den), 1)

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def floor(self):
        if self.den == 1:
            return SymInt(self.n)
        return SymInt(self.n / z3.IntVal(self.den))

    def __trunc__(self):
        if self.den == 1:
            return SymInt(self.n)
        return SymInt(z3.If(self.n >= 0, self.n / z3.IntVal(self.den), -((-self.n) / z3.IntVal(self.den))))

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def round_half_even(self):
        """Nearest integer, ties to even."""
        if self.den == 1:
            return SymInt(self.n)
        c = ctx()
        r = c.fresh_int("rnd")
        d = 2 * (self.den * r - self.n)
        c.define(z3.And(d <= self.den, d >= -self.den))
        c.define(z3.Implies(z3.Or(d == self.den, d == -self.den), r % 2 == 0))
        return SymInt(r)

    def __round__(self, ndigits=None):
        if ndigits is None:
            return self.round_half_even()
        k = 10 ** ndigits if ndigits >= 0 else None
        if k is None:
            raise Unsupported("round negative digits")
        r = (self * k).round_half_even()
        return SymFrac(r.e, k)

    def is_integer(self):
        if self.den == 1:
            return True
        return SymBool(self.n % self.den == 0)

    def _c(self, o, f):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            big = 1 if o > 0 else -1
            return bool(f(0, big))
        if not self._ok(o):
            return NotImplemented
        a, b, _ = self._norm(o)
        return SymBool(f(a, b))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return lnot(self == o)

    def __bool__(self):
        return bool(SymBool(self.n != 0))

    def __float__(self):
        return ctx().concretize(self.n) / self.den

    def __int__(self):
        return int(self.__float__())

    def __hash__(self):
        return hash(self.__float__())

    def __repr__(self):
        return "<SymFrac>"


# ------------------------------------------------------------------- timedelta
def td_us(x):
    return x // _dt.timedelta(microseconds=1)


def is_td(x):
    return isinstance(x, (_dt.timedelta, SymTimedelta))


class SymTimedelta(Sym):
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us if isinstance(us, SymInt) else SymInt(zi(us))

    @staticmethod
    def of(x):
        if isinstance(x, SymTimedelta):
            return x
        n = td_us(x)
        return SymTimedelta(SymInt(z3.IntVal(n), n, n))

    @property
    def days(self): return self.us // US_DAY
    @property
    def seconds(self): return (self.us % US_DAY) // 1000000
    @property
    def microseconds(self): return self.us % 1000000

    def total_seconds(self):
        return SymFrac(self.us.e, 1000000)

    def __add__(self, o):
        if is_td(o):
            return SymTimedelta(self.us + SymTimedelta.of(o).us)
        if isinstance(o, (_dt.datetime, SymDatetime)):
            return SymDatetime.of(o).__add__(self)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if is_td(o):
            return SymTimedelta(self.us - SymTimedelta.of(o).us)
        return NotImplemented

    def __rsub__(self, o):
        if is_td(o):
            return SymTimedelta(SymTimedelta.of(o).us - self.us)
        if isinstance(o, _dt.datetime):
            return SymDatetime.of(o) - self
        return NotImplemented

    def __neg__(self): return SymTimedelta(-self.us)
    def __pos__(self): return self
    def __abs__(self): return SymTimedelta(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymTimedelta(self.us * o)
        if isinstance(o, (float, SymFrac)):
            return SymTimedelta((SymFrac.of(self.us) * o).round_half_even())
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_td(o):
            return SymFrac.of(self.us) / SymTimedelta.of(o).us
        if isinstance(o, (int, float, SymInt, SymFrac)):
            return SymTimedelta((SymFrac.of(self.us) / o).round_half_even())
        return NotImplemented

    def __rtruediv__(self, o):
        return SymFrac.of(SymTimedelta.of(o).us) / self.us

    def __floordiv__(self, o):
        if is_td(o):
            return self.us // (td_us(o) if isinstance(o, _dt.timedelta) else o.us)
        return SymTimedelta(self.us // o)

    def __rfloordiv__(self, o):
        return SymTimedelta.of(o).us // self.us

    def __mod__(self, o):
        return SymTimedelta(self.us % (td_us(o) if isinstance(o, _dt.timedelta) else o.us))

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, op):
        if not is_td(o):
            return NotImplemented
        return getattr(self.us, op)(SymTimedelta.of(o).us)

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__") if is_td(o) else False

    def __ne__(self, o):
        return self._cmp(o, "__ne__") if is_td(o) else True

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(_dt.timedelta(microseconds=self.us.concretize()))

    def __repr__(self):
        return "<SymTimedelta>"


# ------------------------------------------------------------------- calendar
def is_leap(y):
    """Valid for 1901..2099."""
    if isinstance(y, int):
        return y % 4 == 0
    return SymBool(zi(y) % 4 == 0)


def month_len(y, m):
    """Symbolic month length (1901..2099)."""
    if isinstance(y, int) and isinstance(m, int):
        import calendar
        return calendar.monthrange(y, m)[1]
    lp = zb(is_leap(y))
    if isinstance(m, int):
        if m == 2:
            return SymInt(z3.If(lp, z3.IntVal(29), z3.IntVal(28)), 28, 29)
        return MLEN[m - 1]
    e = z3.IntVal(31)
    me = zi(m)
    e = z3.If(z3.Or(me == 4, me == 6, me == 9, me == 11), z3.IntVal(30), e)
    e = z3.If(me == 2, z3.If(lp, z3.IntVal(29), z3.IntVal(28)), e)
    return SymInt(e, 28, 31)


def days_from_civil(y, m, d):
    """Days since 1970-01-01, 1901..2099."""
    if all(isinstance(v, int) for v in (y, m, d)):
        return (_dt.date(y, m, d) - _dt.date(1970, 1, 1)).days
    ye = zi(y)
    base = 365 * (ye - 1970) + (ye - 1969) / 4
    if isinstance(m, int):
        cum = z3.IntVal(CUM[m - 1])
        add = z3.If(ye % 4 == 0, z3.IntVal(1), z3.IntVal(0)) if m > 2 else z3.IntVal(0)
    else:
        me = zi(m)
        cum = z3.IntVal(CUM[11])
        for k in range(10, -1, -1):
            cum = z3.If(me == k + 1, z3.IntVal(CUM[k]), cum)
        add = z3.If(z3.And(me > 2, ye % 4 == 0), z3.IntVal(1), z3.IntVal(0))
    return SymInt(base + cum + add + zi(d) - 1, -40000, 60000)


def civil_from_days(D):
    """Fresh (y, m, d) defined by the day number."""
    c = ctx()
    De = zi(D)
    lo, hi = bounds(D)
    if lo is not None and hi is not None and hi - lo <= 900:
        # a short range: a table of the months it touches
        first = _dt.date(1970, 1, 1) + _dt.timedelta(days=lo)
        tab = []
        y, m = first.year, first.month
        while True:
            n = days_from_civil(y, m, 1)
            if n > hi:
                break
            tab.append((n, y, m))
            y, m = (y + 1, 1) if m == 12 else (y, m + 1)
        ye = z3.IntVal(tab[0][1])
        me = z3.IntVal(tab[0][2])
        ne = z3.IntVal(tab[0][0])
        for n, y, m in tab[1:]:
            g = De >= n
            ye, me, ne = z3.If(g, z3.IntVal(y), ye), z3.If(g, z3.IntVal(m), me), z3.If(g, z3.IntVal(n), ne)
        d = SymInt(De - ne + 1, 1, 31)
        if len(tab) == 1:
            return tab[0][1], tab[0][2], SymInt(De - ne + 1, lo - tab[0][0] + 1, hi - tab[0][0] + 1)
        ylo, yhi = tab[0][1], tab[-1][1]
        return (ylo if ylo == yhi else SymInt(ye, ylo, yhi)), SymInt(me, 1, 12), d
    q = c.fresh_int("yq", YEAR_LO // 4, YEAR_HI // 4)
    r = c.fresh_int("yr", 0, 3)
    m = c.fresh_int("mon", 1, 12)
    d = c.fresh_int("day", 1, 31)
    # year = 4q + r ; leap iff r == 0 ; days before 4q (multiple of four) since 1970
    # (4q-1970)*365 + number of leap years in [1972, 4q) = (4q-1972)/4 = q-493
    yearstart = (4 * q - 1970) * 365 + (q - 493) + 365 * r + z3.If(r > 0, z3.IntVal(1), z3.IntVal(0))
    leap = (r == 0)
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, z3.IntVal(CUM[k]), cum)
    mstart = yearstart + cum + z3.If(z3.And(m > 2, leap), z3.IntVal(1), z3.IntVal(0))
    ml = z3.IntVal(31)
    ml = z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), ml)
    ml = z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)), ml)
    c.define(z3.And(De == mstart + d - 1, d <= ml))
    return SymInt(4 * q + r, YEAR_LO, YEAR_HI), SymInt(m, 1, 12), SymInt(d, 1, 31)


class _TimeTuple:
    pass


# ------------------------------------------------------------------- datetime
def tz_off_us(tz, naive=None):
    """UTC offset in microseconds (int or SymInt) of a fixed-offset tz."""
    if tz is None:
        return 0
    off = tz.utcoffset(None)
    if off is None:
        raise Unsupported("non-fixed tzinfo with symbolic datetime")
    if isinstance(off, SymTimedelta):
        return off.us
    return td_us(off)


class SymDatetime(Sym):
    __slots__ = ("T", "tzinfo", "_c", "fold", "_p")

    def __init__(self, T, tzinfo=None):
        self.T = T if isinstance(T, SymInt) else SymInt(zi(T))
        self.tzinfo = tzinfo
        self._c = {}
        self.fold = 0
        self._p = None

    @staticmethod
    def of(x):
        if isinstance(x, SymDatetime):
            return x
        n = dt_us(x)
        r = SymDatetime(SymInt(z3.IntVal(n), n, n), x.tzinfo)
        r._c.update(D=n // US_DAY, hour=x.hour, minute=x.minute, second=x.second, microsecond=x.microsecond,
                    year=x.year, month=x.month, day=x.day)
        return r

    def _decomp(self):
        if "hour" in self._c:
            return
        c = ctx()
        self._dsod()
        sod = self._c["sod"]
        if isinstance(sod, int):
            self._c.update(hour=sod // 3600000000, minute=sod // 60000000 % 60, second=sod // 1000000 % 60,
                           microsecond=sod % 1000000)
            return
        h = c.fresh_int("h", 0, 23)
        mi = c.fresh_int("mi", 0, 59)
        s = c.fresh_int("s", 0, 59)
        us = c.fresh_int("us", 0, 999999)
        c.define(sod.e == h * 3600000000 + mi * 60000000 + s * 1000000 + us)
        self._c.update(hour=SymInt(h, 0, 23), minute=SymInt(mi, 0, 59),
                       second=SymInt(s, 0, 59), microsecond=SymInt(us, 0, 999999))

    def _dsod(self):
        """Day number and microsecond of day."""
        if "sod" in self._c:
            return
        if "hour" in self._c:
            k = self._c
            self._c["sod"] = k["hour"] * 3600000000 + k["minute"] * 60000000 + k["second"] * 1000000 + k["microsecond"]
            return
        c = ctx()
        if self._p is not None:
            par, us = self._p
            lo, hi = bounds(us)
            if lo is not None and hi is not None and hi - lo < 800 * US_DAY:
                par._dsod()
                pd, ps = par._c["D"], par._c["sod"]
                plo, phi = bounds(ps)
                plo, phi = max(plo, 0), min(phi, US_DAY - 1)
                klo, khi = (plo + lo) // US_DAY, (phi + hi) // US_DAY
                tot = ps + us
                if isinstance(tot, SymInt):
                    e = z3.simplify(tot.e)
                    if z3.is_int_value(e):
                        n = e.as_long()
                        self._c.update(D=pd + n // US_DAY, sod=n % US_DAY)
                        return
                    tot = SymInt(e, tot.lo, tot.hi)
                else:
                    self._c.update(D=pd + tot // US_DAY, sod=tot % US_DAY)
                    return
                if klo == khi:
                    k = klo
                else:
                    k = SymInt(c.fresh_int("k", klo, khi), klo, khi)
                sod = SymInt(z3.simplify(zi(tot - k * US_DAY)), 0, US_DAY - 1)
                c.define(z3.And(sod.e >= 0, sod.e < US_DAY))
                self._c.update(D=pd + k, sod=sod)
                return
        lo = None if self.T.lo is None else self.T.lo // US_DAY
        hi = None if self.T.hi is None else self.T.hi // US_DAY
        D = c.fresh_int("D", lo, hi)
        sod = SymInt(z3.simplify(self.T.e - D * US_DAY), 0, US_DAY - 1)
        c.define(z3.And(sod.e >= 0, sod.e < US_DAY))
        self._c.update(D=SymInt(D, lo, hi), sod=sod)

    def _ymd(self):
        if "year" in self._c:
            return
        y, m, d = civil_from_days(self._get("D"))
        self._c.update(year=y, month=m, day=d)

    def _get(self, k):
        if k in ("year", "month", "day"):
            self._ymd()
        elif k == "D":
            if "D" not in self._c:
                self._dsod()
        else:
            self._decomp()
        return self._c[k]

    year = property(lambda self: self._get("year"))
    month = property(lambda self: self._get("month"))
    day = property(lambda self: self._get("day"))
    hour = property(lambda self: self._get("hour"))
    minute = property(lambda self: self._get("minute"))
    second = property(lambda self: self._get("second"))
    microsecond = property(lambda self: self._get("microsecond"))

    def weekday(self):
        if "wd" not in self._c:
            D = self._get("D")
            if isinstance(D, int):
                self._c["wd"] = (D + 3) % 7
            else:
                c = ctx()
                w = c.fresh_int("wk")
                wd = c.fresh_int("wd", 0, 6)
                c.define(D.e + 3 == 7 * w + wd)
                self._c["wd"] = SymInt(wd, 0, 6)
        return self._c["wd"]

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return self._get("D") + 719163

    def date(self):
        return SymDate(self)

    def time(self):
        return SymTimeOfDay(self)

    def timetz(self):
        return SymTimeOfDay(self)

    def timetuple(self):
        t = _TimeTuple()
        t.tm_year, t.tm_mon, t.tm_mday = self.year, self.month, self.day
        t.tm_hour, t.tm_min, t.tm_sec = self.hour, self.minute, self.second
        t.tm_wday = self.weekday()
        t.tm_yday = self._get("D") - days_from_civil(self.year, 1, 1) + 1
        return t

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def dst(self):
        return None

    def tzname(self):
        return None

    def _utc(self):
        """UTC microseconds; naive datetimes are local time and TZ=UTC."""
        off = tz_off_us(self.tzinfo)
        return self.T - off if not (isinstance(off, int) and off == 0) else self.T

    def timestamp(self):
        return SymFrac(self._utc().e, 1000000, self if self.tzinfo is None else None)

    def astimezone(self, tz=None):
        if tz is None:
            tz = _dt.timezone.utc
        r = SymDatetime(self._utc() + tz_off_us(tz), tz)
        r._p = (self, tz_off_us(tz) - tz_off_us(self.tzinfo))
        return r

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=True, *, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        vals = {}
        for k, v in dict(hour=hour, minute=minute, second=second, microsecond=microsecond).items():
            vals[k] = self._get(k) if v is None else v
        if year is None and month is None and day is None:
            D = self._get("D")
            ymd = {k: self._c[k] for k in ("year", "month", "day", "wd") if k in self._c}
        else:
            y = self.year if year is None else year
            m = self.month if month is None else month
            d = self.day if day is None else day
            return make_datetime(y, m, d, vals["hour"], vals["minute"], vals["second"], vals["microsecond"], tz)
        return _mk(D, vals, tz, ymd)

    # -- arithmetic
    def _shift(self, us):
        if isinstance(us, int) and us == 0:
            return self
        r = SymDatetime(self.T + us, self.tzinfo)
        k = us if isinstance(us, int) else None
        if k is not None and k % US_DAY == 0 and "hour" in self._c:
            r._c.update({n: self._c[n] for n in ("hour", "minute", "second", "microsecond")})
            r._c["D"] = self._c["D"] + k // US_DAY
        r._p = (self, us)
        return r

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return self._shift(td_us(o))
        if isinstance(o, SymTimedelta):
            return self._shift(o.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return self._shift(-td_us(o))
        if isinstance(o, SymTimedelta):
            return self._shift(-o.us)
        if isinstance(o, (_dt.datetime, SymDatetime)):
            o = SymDatetime.of(o)
            self._aware(o, "subtract")
            if self.tzinfo is o.tzinfo:
                return SymTimedelta(self.T - o.T)
            return SymTimedelta(self._utc() - o._utc())
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymDatetime.of(o) - self
        return NotImplemented

    def _aware(self, o, what):
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError(f"can't {what} offset-naive and offset-aware datetimes")

    def _cmp(self, o, op):
        if not isinstance(o, (_dt.datetime, SymDatetime)):
            return NotImplemented
        o = SymDatetime.of(o)
        self._aware(o, "compare")
        if self.tzinfo is o.tzinfo:
            return getattr(self.T, op)(o.T)
        return getattr(self._utc(), op)(o._utc())

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")

    def __eq__(self, o):
        if not isinstance(o, (_dt.datetime, SymDatetime)):
            return False
        o = SymDatetime.of(o)
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return lnot(self == o)

    def concretize(self):
        us = self.T.concretize()
        r = us_dt(us)
        return r.replace(tzinfo=self.tzinfo) if self.tzinfo is not None else r

    def __hash__(self):
        return hash(self.concretize())

    def isoformat(self, *a, **k):
        return self.concretize().isoformat(*a, **k)

    def strftime(self, f):
        return self.concretize().strftime(f)

    def isocalendar(self):
        return self.concretize().isocalendar()

    def __repr__(self):
        return "<SymDatetime>"


def _mk(D, vals, tz, extra=None):
    T = D * US_DAY + vals["hour"] * 3600000000 + vals["minute"] * 60000000 + vals["second"] * 1000000 + vals["microsecond"]
    if isinstance(T, int):
        r = us_dt(T)
        return r.replace(tzinfo=tz)
    r = SymDatetime(T, tz)
    r._c.update(D=D, **vals)
    if extra:
        r._c.update(extra)
    return r


def make_datetime(y, m, d, hour=0, minute=0, second=0, microsecond=0, tz=None):
    def rng(v, lo, hi, what):
        if not (bool(lo <= v) and bool(v <= hi)):
            raise ValueError(f"{what} is out of range")
    rng(m, 1, 12, "month")
    if is_sym(d) or is_sym(m) or is_sym(y):
        if not (bool(d >= 1) and bool(d <= month_len(y, m))):
            raise ValueError("day is out of range for month")
    rng(hour, 0, 23, "hour")
    rng(minute, 0, 59, "minute")
    rng(second, 0, 59, "second")
    rng(microsecond, 0, 999999, "microsecond")
    D = days_from_civil(y, m, d)
    return _mk(D, dict(hour=hour, minute=minute, second=second, microsecond=microsecond), tz,
               dict(year=y, month=m, day=d))


class SymDate(Sym):
    """date part of a (symbolic) datetime"""
    __slots__ = ("dt",)

    def __init__(self, dt):
        self.dt = dt

    @property
    def D(self): return self.dt._get("D")

    year = property(lambda s: s.dt.year)
    month = property(lambda s: s.dt.month)
    day = property(lambda s: s.dt.day)

    def weekday(self): return self.dt.weekday()
    def isoweekday(self): return self.dt.isoweekday()
    def toordinal(self): return self.dt.toordinal()
    def timetuple(self): return self.dt.timetuple()

    @staticmethod
    def _D(o):
        if isinstance(o, SymDate):
            return o.D
        return (o - _dt.date(1970, 1, 1)).days

    def __sub__(self, o):
        if isinstance(o, (SymDate, _dt.date)):
            return SymTimedelta((self.D - self._D(o)) * US_DAY)
        if is_td(o):
            return (self.dt - SymTimedelta((SymTimedelta.of(o).us // US_DAY) * US_DAY)).date()
        return NotImplemented

    def __rsub__(self, o):
        return SymTimedelta((self._D(o) - self.D) * US_DAY)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return (self.dt + _dt.timedelta(days=o.days)).date()
        return (self.dt + SymTimedelta((o.us // US_DAY) * US_DAY)).date()

    __radd__ = __add__

    def replace(self, year=None, month=None, day=None):
        return self.dt.replace(year=year, month=month, day=day).date()

    def _cmp(self, o, op):
        if not isinstance(o, (SymDate, _dt.date)):
            return NotImplemented
        return getattr(self.D, op)(self._D(o))

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__") if isinstance(o, (SymDate, _dt.date)) else False

    def __ne__(self, o): return lnot(self == o)
    def __hash__(self): return hash(self.dt.concretize().date())


class SymTimeOfDay(Sym):
    __slots__ = ("dt",)

    def __init__(self, dt):
        self.dt = dt

    hour = property(lambda s: s.dt.hour)
    minute = property(lambda s: s.dt.minute)
    second = property(lambda s: s.dt.second)
    microsecond = property(lambda s: s.dt.microsecond)
    tzinfo = None

    @staticmethod
    def _us(o):
        return o.hour * 3600000000 + o.minute * 60000000 + o.second * 1000000 + o.microsecond

    def _cmp(self, o, op):
        if not isinstance(o, (SymTimeOfDay, _dt.time)):
            return NotImplemented
        a, b = self._us(self), self._us(o)
        return getattr(a, op)(b)

    def __lt__(self, o): return self._cmp(o, "__lt__")
    def __le__(self, o): return self._cmp(o, "__le__")
    def __gt__(self, o): return self._cmp(o, "__gt__")
    def __ge__(self, o): return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__") if isinstance(o, (SymTimeOfDay, _dt.time)) else False

    def __ne__(self, o): return lnot(self == o)
    def __hash__(self): return hash(self.dt.concretize().time())


# ------------------------------------------------------------------- strings
class SymChar(Sym):
    """One character with a symbolic code point in [lo, hi]."""
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def eq(self, ch):
        if isinstance(ch, SymChar):
            if ch.hi < self.lo or ch.lo > self.hi:
                return False
            return SymBool(self.e == ch.e)
        o = ord(ch)
        if o < self.lo or o > self.hi:
            return False
        return SymBool(self.e == o)

    def in_range(self, lo, hi):
        if self.lo >= lo and self.hi <= hi:
            return True
        if self.hi < lo or self.lo > hi:
            return False
        return SymBool(z3.And(self.e >= lo, self.e <= hi))


def ch_eq(a, b):
    if isinstance(a, SymChar):
        return a.eq(b)
    if isinstance(b, SymChar):
        return b.eq(a)
    return a == b


def mkstr(cs):
    if all(isinstance(c, str) for c in cs):
        return "".join(cs)
    return SymStr(cs)


def chars_of(s):
    return list(s.cs) if isinstance(s, SymStr) else list(s)


class SymStr(Sym):
    """String of concrete length whose characters may be symbolic."""
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield c if isinstance(c, str) else SymStr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[i]])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(self.cs + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(chars_of(o) + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.cs * n)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        b = chars_of(o)
        if len(b) != len(self.cs):
            return False
        return land(*[ch_eq(x, y) for x, y in zip(self.cs, b)])

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        out = []
        for c in self.cs:
            out.append(c if isinstance(c, str) else chr(ctx().concretize(c.e, c.hi - c.lo + 2)))
        return "".join(out)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _match_at(self, sub, i):
        b = chars_of(sub)
        if i + len(b) > len(self.cs):
            return False
        return bool(land(*[ch_eq(x, y) for x, y in zip(self.cs[i:i + len(b)], b)]))

    def find(self, sub, start=0, end=None):
        start = start or 0
        end = len(self.cs) if end is None else end
        for i in range(start, end - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        n = 0
        i = 0
        while True:
            j = self.find(sub, i)
            if j < 0:
                return n
            n += 1
            i = j + len(sub)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, curr = [], []
            for c in self.cs:
                if isinstance(c, str) and c.isspace():
                    if curr:
                        out.append(mkstr(curr))
                    curr = []
                else:
                    curr.append(c)
            if curr:
                out.append(mkstr(curr))
            return out
        out, last, i = [], 0, 0
        while i <= len(self.cs) - len(sep):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(sep, i):
                out.append(mkstr(self.cs[last:i]))
                i += len(sep)
                last = i
            else:
                i += 1
        out.append(mkstr(self.cs[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self._match_at(p, 0)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(p) <= len(self.cs) and self._match_at(p, len(self.cs) - len(p))

    def _strip(self, chars, l, r):
        cs = list(self.cs)
        def drop(c):
            if chars is None:
                return isinstance(c, str) and c.isspace()
            return any(bool(ch_eq(c, x)) for x in chars)
        while l and cs and drop(cs[0]):
            cs.pop(0)
        while r and cs and drop(cs[-1]):
            cs.pop()
        return mkstr(cs)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def ljust(self, n, fill=" "):
        return mkstr(self.cs + [fill] * max(0, n - len(self.cs)))

    def rjust(self, n, fill=" "):
        return mkstr([fill] * max(0, n - len(self.cs)) + self.cs)

    def zfill(self, n):
        return self.rjust(n, "0")

    def _map(self, f):
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.append(f(c))
            elif 48 <= c.lo and c.hi <= 57:
                out.append(c)
            else:
                raise PathAbort("case mapping of symbolic character")
        return mkstr(out)

    def lower(self): return self._map(str.lower)
    def upper(self): return self._map(str.upper)
    def casefold(self): return self._map(str.casefold)

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        out = chars_of(parts[0])
        for p in parts[1:]:
            out += chars_of(b) + chars_of(p)
        return mkstr(out)

    def isdigit(self):
        if not self.cs:
            return False
        return bool(land(*[c.isdigit() if isinstance(c, str) else c.in_range(48, 57) for c in self.cs]))

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return all(isinstance(c, str) and c.isalpha() for c in self.cs)

    def isspace(self):
        return all(isinstance(c, str) and c.isspace() for c in self.cs)

    def to_int(self):
        s = self.strip()
        cs = chars_of(s)
        sign = 1
        if cs and isinstance(cs[0], str) and cs[0] in "+-":
            sign = -1 if cs[0] == "-" else 1
            cs = cs[1:]
        if not cs:
            raise ValueError("invalid literal for int()")
        if not mkstr(cs).isdigit():
            raise ValueError("invalid literal for int()")
        tot = z3.IntVal(0)
        for c in cs:
            v = z3.IntVal(int(c)) if isinstance(c, str) else c.e - 48
            tot = tot * 10 + v
        hi = 10 ** len(cs) - 1
        r = SymInt(z3.simplify(tot), 0, hi)
        return -r if sign < 0 else r

    def to_float(self):
        s = self.strip()
        cs = chars_of(s)
        sign = 1
        if cs and isinstance(cs[0], str) and cs[0] in "+-":
            sign = -1 if cs[0] == "-" else 1
            cs = cs[1:]
        ndot = sum(1 for c in cs if isinstance(c, str) and c == ".")
        digits = [c for c in cs if not (isinstance(c, str) and c == ".")]
        if ndot > 1 or not digits:
            raise ValueError("could not convert string to float")
        if not mkstr(digits).isdigit():
            raise ValueError("could not convert string to float")
        frac = 0
        if ndot:
            pos = next(i for i, c in enumerate(cs) if isinstance(c, str) and c == ".")
            frac = len(cs) - pos - 1
        tot = z3.IntVal(0)
        for c in digits:
            v = z3.IntVal(int(c)) if isinstance(c, str) else c.e - 48
            tot = tot * 10 + v
        return SymFrac(z3.simplify(sign * tot), 10 ** frac)

    def __int__(self): return int(self.concretize())
    def __float__(self): return float(self.concretize())
    def __repr__(self): return "<SymStr>"

    def encode(self, *a):
        return self.concretize().encode(*a)


# ------------------------------------------------------------------- helpers
def concrete(v, m):
    """Value of v under model m (containers handled)."""
    def iv(e):
        return m.eval(e, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt):
        return iv(v.e)
    if isinstance(v, SymFrac):
        return iv(v.n) / v.den
    if isinstance(v, SymTimedelta):
        return _dt.timedelta(microseconds=iv(v.us.e))
    if isinstance(v, SymDatetime):
        r = us_dt(iv(v.T.e))
        return r.replace(tzinfo=v.tzinfo)
    if isinstance(v, SymStr):
        return "".join(c if isinstance(c, str) else chr(iv(c.e)) for c in v.cs)
    if isinstance(v, tuple):
        return tuple(concrete(x, m) for x in v)
    if isinstance(v, list):
        return [concrete(x, m) for x in v]
    if isinstance(v, dict):
        return {k: concrete(x, m) for k, x in v.items()}
    return v


def ite(c, a, b):
    """Non-forking if-then-else on numbers / datetimes / timedeltas / bools."""
    if not is_sym(c):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(z3.If(zb(c), zb(a), zb(b)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        la, ha = bounds(a)
        lb, hb = bounds(b)
        return SymInt(z3.If(zb(c), zi(a), zi(b)),
                      None if None in (la, lb) else min(la, lb), None if None in (ha, hb) else max(ha, hb))
    if isinstance(a, (_dt.datetime, SymDatetime)):
        a, b = SymDatetime.of(a), SymDatetime.of(b)
        return SymDatetime(ite(c, a.T, b.T), a.tzinfo)
    if is_td(a):
        return SymTimedelta(ite(c, SymTimedelta.of(a).us, SymTimedelta.of(b).us))
    raise Unsupported("ite")
