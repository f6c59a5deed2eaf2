"""C02: rolling a period forwards/backwards finds the nearest occurrence, exactly."""
from checks.timelib import *
from checks.c01 import bound, CLS, UNIT, CYCLE, IRANGE, BASE, clock, val, two
from rocketry.time import (TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear,
                           TimeDelta, TimeSpanDelta, StaticInterval)

LEVEL = "model_checking"
CAL_QUICK = [(2023, 12), (2024, 1), (2024, 2), (2024, 3), (2024, 4), (2024, 7), (2024, 8), (2025, 1), (2025, 2), (2025, 3)]
CAL_FULL = [(y, m) for y in (2023, 2024, 2025, 2026) for m in range(1, 13)]
LO2 = datetime.datetime(2003, 1, 1)
HI2 = datetime.datetime(2095, 12, 31, 23, 59, 59, 999999)
BOUNDS = ("reference instant t: every microsecond of 2003..2095; witness instant u: every microsecond of 2001..2098 "
          "(stands for 'for all u'); integer bounds over the full documented range, H:M clock-string bounds for day periods (H:M:S[.f] too in the thorough tier), "
          "'<n> quarter' bounds, float bounds in eighths; fixed intervals, deltas and spans of up to 400 days")
OUTSIDE = "instants outside 2003-2095"
ASSUMPTIONS = []


def mk(ctx, scope, form):
    cls = CLS[scope]
    if form == "full":
        return cls(), None
    if form.startswith("clock"):
        (a, av), (b, bv) = clock(ctx, "a", secs=form == "clock-s"), clock(ctx, "b", secs=form == "clock-s")
        return cls(a, b), (av, bv)
    if form == "quarter":
        (a, av, _), (b, _, bv) = bound(ctx, scope, "quarter", "a"), bound(ctx, scope, "quarter", "b")
        ctx.assume(land(av < CYCLE[scope], bv > 0))
        return cls(a, b), (av, bv)
    if form == "float":
        (a, av, _), (b, _, bv) = bound(ctx, scope, "float", "a"), bound(ctx, scope, "float", "b")
        return cls(a, b), (av, bv)
    a = ctx.int("a", *IRANGE[scope]) if form != "before" else None
    b = ctx.int("b", *IRANGE[scope]) if form in ("between", "before") else None
    if form == "at":
        return cls.at(a), (a, None)
    if form == "starting":
        return cls.starting(a), (a, None)
    return cls(a, b), (a, b)


def contains_closed(iv, u):
    if iv.closed == "left":
        return land(iv.left <= u, u < iv.right)
    if iv.closed == "both":
        return land(iv.left <= u, u <= iv.right)
    if iv.closed == "right":
        return land(iv.left < u, u <= iv.right)
    return land(iv.left < u, u < iv.right)


def month(y, m, n=0):
    k = y * 12 + m - 1 + n
    return datetime.datetime(k // 12, k % 12 + 1, 1)


def around(ctx, scope, cal):
    """Reference instant in one calendar month (every month shape is tried) and a witness around it."""
    us = datetime.timedelta(microseconds=1)
    y, m = ctx.choice("cal", cal)
    t = ctx.dt("t", month(y, m), month(y, m, 1) - us)
    if scope == "month":
        u = ctx.dt("u", month(y, m, -4), month(y, m, 5))
    else:
        u = ctx.dt("u", month(y - 1, 1), month(y + 2, 1) - us)
    return t, u


US = datetime.timedelta(microseconds=1)
LONGEST = dict(second=datetime.timedelta(seconds=1), minute=datetime.timedelta(minutes=1), hour=datetime.timedelta(hours=1),
               day=datetime.timedelta(days=1), week=datetime.timedelta(days=7), month=datetime.timedelta(days=31),
               year=datetime.timedelta(days=366))


def whole(scope, form, args):
    """does the period cover its whole cycle (then occurrences touch)?"""
    if form == "at":
        return False
    if form.startswith("clock") or form in ("quarter", "float"):
        return lor(args[0] == args[1], land(args[0] == 0, args[1] == CYCLE[scope]))
    lo, hi = IRANGE[scope]
    a = lo if args[0] is None else args[0]
    b = hi if args[1] is None else args[1]
    return (b + 1 - a) % (hi - lo + 1) == 0


def harness(scope, form, side, cal=None):
    def run(ctx):
        p, args = mk(ctx, scope, form)
        if cal:
            t, u = around(ctx, scope, cal)
        else:
            t = ctx.dt("t", LO2, HI2)
            u = ctx.dt("u", LO, HI)
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        ctx.observe("l", l)
        ctx.observe("r", r)
        if side == "fwd":
            ctx.check(l >= t, "occurrence starts at or after t")
            ctx.check(r > l, "occurrence is not empty")
            ctx.check(lor(u < t, u >= l, lnot(u in p)), "no earlier occurrence is skipped")
        else:
            ctx.check(r <= t, "occurrence ends at or before t")
            ctx.check(lor(r > l, iv.closed == "both"), "occurrence is not empty")
            inside = u in p
            ctx.check(lor(u < r, u >= t, land(u == r, iv.closed == "both"), lnot(inside)), "no later occurrence is skipped")
        ctx.check(implies(contains_closed(iv, u), u in p), "every instant of the occurrence belongs to the period")
        ctx.check(r - l <= LONGEST[scope], "an occurrence is not longer than its cycle")
        if form not in ("full", "starting") and scope not in ("month", "year"):
            after = r if iv.closed in ("left", "neither") else r + US
            if side == "fwd":
                ctx.check(lor(lnot(after in p), whole(scope, form, args)), "the occurrence lasts until its end")
            else:
                ctx.check(lor(lnot((l - US) in p), whole(scope, form, args)), "the occurrence reaches back to its start")
        if side == "fwd":
            ctx.check(iff(t in p, l == t), "t belongs iff the occurrence starts at t")
        else:
            ctx.check(implies(t in p, r == t), "an occurrence containing t is cut at t")
    return run


def static_harness(form, side):
    """A fixed interval has one occurrence: cut at t, or nothing if it lies on the other side of t"""
    def run(ctx):
        t = ctx.dt("t", LO, HI)
        a = ctx.dt("a", LO, HI) if form != "until" else None
        b = ctx.dt("b", LO, HI) if form != "from" else None
        if form == "static":
            ctx.assume(a < b)
        p = StaticInterval(a, b)
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        ctx.observe("l", l)
        ctx.observe("r", r)
        if side == "fwd":
            gone = False if b is None else t >= b
            ctx.check(lor(gone, l == (t if a is None else ite(a > t, a, t))), "starts at t or at its start")
            ctx.check(lor(gone, r > HI if b is None else r == b), "lasts until its end")
        else:
            gone = False if a is None else t <= a
            ctx.check(lor(gone, r == (t if b is None else ite(b < t, b, t))), "ends at t or at its end")
            ctx.check(lor(gone, l < LO if a is None else l == a), "reaches back to its start")
        ctx.check(lor(lnot(gone), l == r), "nothing is found past the interval")
    return run


def delta_harness(side):
    def run(ctx):
        t = ctx.dt("t", LO2, HI2)
        past, future = ctx.td("past", 0, 400 * D), ctx.td("future", 0, 400 * D)
        p = TimeDelta(past, future)
        if ctx.flag("ref"):
            p = p.use_reference(ctx.dt("r", LO2, HI2))
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        ctx.observe("l", l)
        ctx.observe("r", r)
        if side == "fwd":
            ctx.check(land(l == t, r == t + future), "from t to the future")
        else:
            ctx.check(land(l == t - past, r == t), "from the past to t")
    return run


def span_harness(has_far, side):
    def run(ctx):
        t = ctx.dt("t", LO2, HI2)
        near = ctx.td("near", 0, 400 * D)
        far = ctx.td("far", 0, 400 * D) if has_far else None
        if has_far:
            ctx.assume(near <= far)
        p = TimeSpanDelta(near, far)
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        ctx.observe("l", l)
        ctx.observe("r", r)
        if side == "fwd":
            ctx.check(land(l == t + near, r == t + far if has_far else r > HI), "from near to far ahead")
        else:
            ctx.check(land(l == t - far if has_far else l < LO, r == t - near), "from far to near behind")
    return run


CLOCKS = dict(quick=("clock",), thorough=("clock", "clock-s"))


def cases(tier):
    scopes = ("second", "minute", "hour", "day", "week")
    for scope in scopes:
        for form in ("between", "before", "after", "at", "starting", "full") + CLOCKS[tier] * (scope == "day"):
            for side in ("fwd", "back"):
                yield Case(f"{scope}-{form}-{side}", harness(scope, form, side), budget=150 if form != "clock-s" else 1500)
    for side in ("fwd", "back"):
        yield Case(f"hour-quarter-{side}", harness("hour", "quarter", side), budget=150)
        for scope in ("second", "minute"):
            yield Case(f"{scope}-float-{side}", harness(scope, "float", side), budget=150)
        for form in ("static", "from", "until"):
            yield Case(f"{form}-{side}", static_harness(form, side))
        yield Case(f"delta-{side}", delta_harness(side))
        for far in (True, False):
            yield Case(f"span far={far} {side}", span_harness(far, side))
    cal = CAL_QUICK if tier == "quick" else CAL_FULL
    for scope in ("month", "year"):
        for form in ("between", "before", "after", "at", "starting", "full"):
            for side in ("fwd", "back"):
                yield Case(f"{scope}-{form}-{side}", harness(scope, form, side, cal), budget=150)
