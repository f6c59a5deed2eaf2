"""C01: membership of an instant in a fixed clock/calendar period."""
from checks.timelib import *
from rocketry.time import (TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear, TimeDelta, TimeSpanDelta)
from rocketry.core.time.base import StaticInterval

LEVEL = "model_checking"
BOUNDS = ("instants: every microsecond of 2001-01-01..2098-12-31 (naive); integer bounds: full documented range of each "
          "period; string bounds: every digit combination of the documented clock formats (0-6 fractional digits), every "
          "weekday/month name and abbreviation; forms between/before/after/at/starting/full/right_closed; float bounds of second and minute periods in eighths of a unit; "
          "dict bounds (hour, minute, second, microsecond); '<n> quarter' of an hour; fixed intervals with every pair of datetimes; "
          "deltas up to 400 days around every reference instant")
OUTSIDE = ("strings outside the documented formats (free-form dateutil input such as '10 PM'), instants outside 2001-2098, "
           "floats that are not eighths")
ASSUMPTIONS = ["dateutil.parser.parse on H:M[:S[.f]] strings returns exactly those components"]

CLS = dict(second=TimeOfSecond, minute=TimeOfMinute, hour=TimeOfHour, day=TimeOfDay, week=TimeOfWeek, month=TimeOfMonth,
           year=TimeOfYear)
UNIT = dict(second=1000, minute=S, hour=M, day=H, week=D, month=D)
CYCLE = dict(second=S, minute=M, hour=H, day=D, week=7 * D, month=31 * D)
IRANGE = dict(second=(0, 999), minute=(0, 59), hour=(0, 59), day=(0, 23), week=(1, 7), month=(1, 31), year=(1, 12))
DICTS = dict(day=[("hour", 23, H), ("minute", 59, M), ("second", 59, S), ("microsecond", 999999, 1)],
             hour=[("minute", 59, M), ("second", 59, S), ("microsecond", 999999, 1)],
             minute=[("second", 59, S), ("microsecond", 999999, 1)])
BASE = dict(second=0, minute=0, hour=0, day=0, week=1, month=1)


def frac(ctx, name):
    """fractional seconds: none or 1..6 digits -> (text suffix, microseconds)"""
    n = ctx.choice(name + "n", [0, 1, 3, 6])
    if n == 0:
        return "", 0
    ds = ctx.digits(name, n)
    return "." + ds, val(ds) * 10 ** (6 - n)


def val(ds):
    return ds.to_int() if is_sym(ds) else int(ds)


def two(ctx, name, hi):
    ds = ctx.digits(name, 2)
    ctx.assume(val(ds) <= hi)
    return ds, val(ds)


def clock(ctx, name, secs=True):
    h, hv = two(ctx, name + "h", 23)
    m, mv = two(ctx, name + "m", 59)
    s, v = h + ":" + m, hv * H + mv * M
    if secs and ctx.flag(name + "hasS"):
        ss, sv = two(ctx, name + "s", 59)
        f, fv = frac(ctx, name + "f")
        s, v = s + ":" + ss + f, v + sv * S + fv
    return s, v


def bound(ctx, scope, kind, name, variants=True):
    """-> (argument, start microseconds, end microseconds if used as the end)"""
    if kind == "int":
        i = ctx.int(name, *IRANGE[scope])
        u = UNIT[scope]
        a = (i - BASE[scope]) * u
        return i, a, a + u
    if kind == "float":
        # eighths of a unit are exact as floats
        i = ctx.int(name, 0, IRANGE[scope][1] * 8 + 7)
        v = i * (UNIT[scope] // 8)
        return i / 8, v, v
    if kind == "dict":
        parts = DICTS[scope]
        n = ctx.choice(name + "n", range(1, len(parts) + 1))
        d = {k: ctx.int(name + k, 0, hi) for k, hi, _ in parts[:n]}
        v = 0
        for k, _, u in parts[:n]:
            v = v + d[k] * u
        return d, v, v
    if kind == "quarter":
        ds = ctx.digits(name, 1)
        ctx.assume(val(ds) <= 4)
        v = val(ds) * 15 * M
        return ds + ctx.choice(name + "w", [" quarter", "q"]), v, v
    if scope == "second":
        ds = ctx.digits(name, 3)
        v = val(ds) * 1000
        return ds, v, v
    if scope == "minute":
        ss, sv = two(ctx, name + "s", 59)
        f, fv = frac(ctx, name + "f")
        v = sv * S + fv
        return ss + f, v, v
    if scope == "hour":
        mm, mv = two(ctx, name + "m", 59)
        ss, sv = two(ctx, name + "s", 59)
        f, fv = frac(ctx, name + "f")
        v = mv * M + sv * S + fv
        return mm + ":" + ss + f, v, v
    if scope == "day":
        s, v = clock(ctx, name)
        return s, v, v
    if scope == "week":
        k = ctx.int(name + "d", 0, 6)
        n = ctx.choice(name + "form", [0, 1]) if variants else 0
        names = (WD, WDL)[n]
        d = pick(ctx, k, names)
        if ctx.flag(name + "hasT"):
            s, v = clock(ctx, name, secs=False)
            return d + " " + s, k * D + v, k * D + v
        return d, k * D, (k + 1) * D
    if scope == "month":
        two_digits = ctx.flag(name + "2d")
        ds = ctx.digits(name + "d", 2 if two_digits else 1)
        ctx.assume(land(val(ds) >= 1, val(ds) <= 31))
        suf = ctx.choice(name + "suf", ["st", "nd", "rd", "th", "."]) if variants else "th"
        a = (val(ds) - 1) * D
        if ctx.flag(name + "hasT"):
            s, v = clock(ctx, name, secs=False)
            return ds + suf + " " + s, a + v, a + v
        return ds + suf, a, a + D
    raise ValueError


def pick(ctx, k, names):
    """names[k] for a symbolic k (forks)"""
    for i in range(len(names) - 1):
        if k == i:
            return names[i]
    return names[-1]


def harness(scope, kind, form):
    cls = CLS[scope]

    def run(ctx):
        dt = ctx.dt("t", LO, HI)
        cyc = CYCLE[scope]
        if form == "full":
            p = cls()
            s, e = 0, 0
        elif form == "between":
            # spelling variants of names/suffixes are covered by the one-sided forms
            a, s, _ = bound(ctx, scope, kind, "a", variants=False)
            b, _, e = bound(ctx, scope, kind, "b", variants=False)
            p = cls(a, b)
        elif form == "right_closed":
            a, s, _ = bound(ctx, scope, kind, "a", variants=False)
            if ctx.flag("unit"):
                e = s + UNIT[scope]
                e = ite(e >= cyc, e - cyc, e)
                p = cls(a, time_point=True, right_closed=True)
            else:
                b, _, e = bound(ctx, scope, kind, "b", variants=False)
                ctx.assume(e < cyc)
                p = cls(a, b, right_closed=True)
            e = e + 1
        elif form == "before":
            b, _, e = bound(ctx, scope, kind, "b")
            s = 0
            p = cls(None, b)
        elif form == "after":
            a, s, _ = bound(ctx, scope, kind, "a")
            e = cyc
            p = cls(a, None)
        elif form == "at":
            a, s, _ = bound(ctx, scope, kind, "a")
            e = s + UNIT[scope]
            e = ite(e >= cyc, e - cyc, e)
            p = cls.at(a)
        elif form == "starting":
            a, s, _ = bound(ctx, scope, kind, "a")
            e = s
            p = cls.starting(a)
        got = dt in p
        x = pos(scope, dt)
        if form == "full" or form == "starting":
            exp = True
        elif form in ("before", "after"):
            # "before 0" / "after the last instant" degenerate to the whole cycle
            exp = lor(s == e, land(s <= x, x < e))
        else:
            exp = member(x, s, e)
        ctx.observe("in", got)
        ctx.check(iff(got, exp), "membership")
    return run


def year_harness(kind, form):
    def run(ctx):
        dt = ctx.dt("t", LO, HI)

        def b(name):
            i = ctx.int(name, 1, 12)
            if kind == "int":
                return i, i
            names = MN if ctx.flag(name + "abbr") else MNL
            return pick(ctx, i - 1, names), i
        m = dt.month
        last_us = lambda mon: land(m == mon, dt.day == month_len(dt.year, m) if is_sym(dt.day) else dt.day == month_len(dt.year, dt.month),
                                   tod(dt) == D - 1)
        if form == "between":
            a, ai = b("a")
            e, ei = b("b")
            p = TimeOfYear(a, e)
            exp = ite(ai <= ei, land(ai <= m, m <= ei), lor(m >= ai, m <= ei))
            edge = ei
        elif form == "at":
            a, ai = b("a")
            p = TimeOfYear.at(a)
            exp = m == ai
            edge = ai
        elif form == "before":
            e, ei = b("b")
            p = TimeOfYear(None, e)
            exp = m <= ei
            edge = ei
        elif form == "after":
            a, ai = b("a")
            p = TimeOfYear(a, None)
            exp = m >= ai
            edge = 0
        got = dt in p
        ctx.observe("in", got)
        ctx.check(iff(got, exp), "membership", known=[("C01-year-last-microsecond", last_us(edge))])
    return run


def static_harness(form):
    """A fixed interval between two datetimes (bounds as datetimes; either may be left out)"""
    def run(ctx):
        t = ctx.dt("t", LO, HI)
        a = ctx.dt("a", LO, HI) if form != "until" else None
        b = ctx.dt("b", LO, HI) if form != "from" else None
        if form == "static":
            ctx.assume(a < b)
        p = StaticInterval(a, b)
        got = t in p
        ctx.observe("in", got)
        exp = land(a is None or a <= t, b is None or t < b)
        ctx.check(iff(got, exp), "membership")
    return run


def delta_harness(ctx):
    """A period around a reference instant"""
    t = ctx.dt("t", LO, HI)
    ref = ctx.dt("ref", LO, HI)
    past, future = ctx.td("past", 0, 400 * D), ctx.td("future", 0, 400 * D)
    p = TimeDelta(past, future, reference=ref) if ctx.flag("given") else TimeDelta(past, future).use_reference(ref)
    got = t in p
    ctx.observe("in", got)
    ctx.check(iff(got, land(ref - past <= t, t <= ref + future)), "membership")


def span_harness(has_far):
    def run(ctx):
        t = ctx.dt("t", LO, HI)
        ref = ctx.dt("ref", LO, HI)
        near = ctx.td("near", 0, 400 * D)
        far = ctx.td("far", 0, 400 * D) if has_far else None
        p = TimeSpanDelta(near, far, reference=ref) if ctx.flag("given") else TimeSpanDelta(near, far).use_reference(ref)
        got = t in p
        ctx.observe("in", got)
        away = ite(t <= ref, ref - t, t - ref)
        ctx.check(iff(got, land(near <= away, True if far is None else away <= far)), "membership")
    return run


def cases(tier):
    for scope in ("second", "minute", "hour", "day", "week", "month"):
        for form in ("between", "before", "after", "at", "starting"):
            for kind in ("int", "str"):
                yield Case(f"{scope}-{form}-{kind}", harness(scope, kind, form), budget=120 if tier == "quick" else 600,
                           weight=3 if (kind == "str" and form == "between") else 1)
        yield Case(f"{scope}-full", harness(scope, "int", "full"))
        yield Case(f"{scope}-right_closed-int", harness(scope, "int", "right_closed"))
        for kind in ("float",) * (scope in ("second", "minute")) + ("dict",) * (scope in DICTS) + ("quarter",) * (scope == "hour"):
            for form in ("between", "before", "after", "at", "starting"):
                yield Case(f"{scope}-{form}-{kind}", harness(scope, kind, form), budget=120)
    for form in ("static", "from", "until"):
        yield Case(f"{form}", static_harness(form))
    yield Case("delta", delta_harness)
    for far in (True, False):
        yield Case(f"span far={far}", span_harness(far))
    for form in ("between", "at", "before", "after"):
        for kind in ("int", "str"):
            yield Case(f"year-{form}-{kind}", year_harness(kind, form), budget=120, weight=3 if form == "between" else 1)
