"""C03: combining periods with & and | is intersection and union of their instants, also when rolled."""
from checks.timelib import *
from checks.c01 import UNIT, CYCLE, IRANGE, BASE
from checks.c02 import mk, contains_closed
from rocketry.time import TimeOfDay, TimeOfWeek, TimeOfHour, TimeOfMonth, TimeOfMinute, Cron, always
from rocketry.core.time import StaticInterval
from rocketry.pybox.time import Interval

LEVEL = "model_checking"
LO3 = datetime.datetime(2024, 1, 1)
HI3 = datetime.datetime(2025, 12, 31, 23, 59, 59, 999999)
BOUNDS = ("two or three (and six) combined periods of second/minute/hour/day/week/month/year/fixed-date type, integer bounds over the full "
          "range; instants: every microsecond of 2024-2025 (a leap and a common year); rolling: the intersection/union of two or "
          "three periods, at most 12 alternations of the search")
OUTSIDE = "other numbers of combined periods; rolling of intersections without any common instant (has no answer)"
ASSUMPTIONS = ["the hash of a period is not observed (frozenset of periods is modelled by an equality-based set)"]


def part(ctx, kind, n):
    """A period with symbolic bounds named by n"""
    scope, form = kind.split("-")
    sub = _Named(ctx, n)
    if scope == "static":
        a = ctx.dt(n + "lo", LO3, HI3)
        b = ctx.dt(n + "hi", LO3, HI3)
        ctx.assume(a < b)
        return StaticInterval(a, b)
    return mk(sub, scope, form)[0]


def formula(sub, kind, n):
    """The documented membership of the same period as one solver term (decided against the code by C01)"""
    scope, form = kind.split("-")
    if form in ("full", "starting"):
        return lambda x: True
    lo, hi = IRANGE[scope]
    u, cyc = UNIT[scope], CYCLE[scope]
    a = (sub.vals["a"] - BASE[scope]) * u if form in ("between", "after", "at") else 0
    b = (sub.vals["b"] - BASE[scope]) * u + u if form in ("between", "before") else cyc
    if form == "at":
        b = a + u
    return lambda x: lor(a == b, ite(a < b, land(a <= pos(scope, x), pos(scope, x) < b),
                                     lor(pos(scope, x) >= a, pos(scope, x) < b)))


class _Named:
    def __init__(self, ctx, n):
        self.ctx, self.n, self.vals = ctx, n, {}

    def int(self, name, *a):
        self.vals[name] = self.ctx.int(self.n + name, *a)
        return self.vals[name]


def combine(expr, ps):
    return eval(expr, {}, dict(zip("abc", ps), always=always))


def truth(expr, vals):
    """Boolean value of the same expression"""
    a, b, c = (list(vals) + [None] * 3)[:3]
    table = {
        "a & b": lambda: land(a, b), "a | b": lambda: lor(a, b),
        "(a & b) | c": lambda: lor(land(a, b), c), "(a | b) & c": lambda: land(lor(a, b), c),
        "a & b & c": lambda: land(a, b, c), "a | b | c": lambda: lor(a, b, c),
        "a & (b & c)": lambda: land(a, b, c), "a | (b | c)": lambda: lor(a, b, c),
        "a & (b | c)": lambda: land(a, lor(b, c)), "a | (b & c)": lambda: lor(a, land(b, c)),
        "a & always": lambda: a, "always & a": lambda: a, "a | always": lambda: True, "always | a": lambda: True,
        "a & a": lambda: a, "a | a": lambda: a,
    }
    return table[expr]()


def inside(expr, kinds):
    def run(ctx):
        ps = [part(ctx, k, n) for k, n in zip(kinds, "abc")]
        t = ctx.dt("t", LO3, HI3)
        p = combine(expr, ps)
        got = t in p
        ctx.observe("in", got)
        ctx.check(iff(got, truth(expr, [t in q for q in ps])), "combined membership")
    return run


def many(op, kinds):
    """more than three periods at once"""
    def run(ctx):
        ps = [part(ctx, k, n) for k, n in zip(kinds, "abcdefg")]
        t = ctx.dt("t", LO3, HI3)
        p = ps[0]
        for q in ps[1:]:
            p = p & q if op == "&" else p | q
        got = t in p
        vals = [t in q for q in ps]
        ctx.check(iff(got, land(*vals) if op == "&" else lor(*vals)), "combined membership")
    return run


def roll(op, kinds, side):
    def run(ctx):
        subs = [_Named(ctx, n) for n in "abc"[:len(kinds)]]
        ps = [mk(sub, *k.split("-"))[0] for k, sub in zip(kinds, subs)]
        fs = [formula(sub, k, n) for k, n, sub in zip(kinds, "abc", subs)]
        t = ctx.dt("t", datetime.datetime(2024, 2, 1), datetime.datetime(2024, 2, 1, 23, 59, 59, 999999))
        u = ctx.dt("u", datetime.datetime(2024, 1, 1), datetime.datetime(2024, 3, 5))
        p = ps[0]
        for q in ps[1:]:
            p = (p & q) if op == "&" else (p | q)
        if op == "&":
            # there is a common instant within the window the search needs
            w = ctx.dt("w", datetime.datetime(2024, 2, 2), datetime.datetime(2024, 2, 3, 23, 59, 59, 999999)) if side == "fwd" \
                else ctx.dt("w", datetime.datetime(2024, 1, 30), datetime.datetime(2024, 1, 31, 23, 59, 59, 999999))
            for f in fs:
                ctx.assume(f(w))
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        if op == "&":   # (ties between the members are broken by the order of a frozenset)
            ctx.observe("l", l)
        ctx.observe("r", r)
        us = [f(u) for f in fs]
        ts = [f(t) for f in fs]
        uin = land(*us) if op == "&" else lor(*us)
        tin = land(*ts) if op == "&" else lor(*ts)
        if side == "fwd":
            ctx.check(l >= t, "occurrence starts at or after t")
            ctx.check(lor(u < t, u >= l, lnot(uin)), "no earlier occurrence is skipped")
            ctx.check(implies(tin, l == t), "an occurrence containing t starts at t")
            ctx.check(r > l, "occurrence is not empty")
        else:
            ctx.check(r <= t, "occurrence ends at or before t")
            ctx.check(lor(u < r, u >= t, land(u == r, iv.closed in ("both", "right")), lnot(uin)), "no later occurrence is skipped")
            # at its very first instant an occurrence has nothing to roll back to
            before = t - datetime.timedelta(microseconds=1)
            bs = [f(before) for f in fs]
            ctx.check(implies(land(tin, land(*bs) if op == "&" else lor(*bs)), r == t), "an occurrence containing t is cut at t")
        ctx.check(implies(contains_closed(iv, u), uin), "every instant of the occurrence belongs to the period")
        if op == "|":
            for q in ps:
                m = q.rollforward(t) if side == "fwd" else q.rollback(t)
                touch = land(m.left < r, l < m.right)
                ctx.check(implies(touch, land(l <= m.left, m.right <= r)),
                          "overlapping occurrences of the members are one occurrence")
    return run


def interval_algebra(ctx):
    """Overlap, intersection and emptiness of concrete time ranges of every closedness"""
    def iv(n):
        a, b = ctx.int(n + "l", 0, 20), ctx.int(n + "r", 0, 20)
        closed = ctx.choice(n + "c", ["left", "right", "both", "neither"])
        ctx.assume(a <= b)
        # even end points: there is an instant between any two different ones
        return Interval(a * 2, b * 2, closed=closed)
    x, y = iv("x"), iv("y")
    w = ctx.int("w", -1, 41)
    ctx.check(implies(x.is_empty, lnot(w in x)), "an empty range has no instants")
    mid = x.left + (x.right - x.left) // 2 if ctx.flag("even") else x.left
    ctx.check(implies(lnot(x.is_empty), lor(mid in x, x.left in x, x.right in x, (x.left + 1) in x)), "a range that is not empty has an instant")
    ctx.assume(lnot(x.is_empty))
    ctx.assume(lnot(y.is_empty))
    ov = x.overlaps(y)
    ctx.observe("ov", ov)
    ctx.check(implies(land(w in x, w in y), ov), "ranges with a common instant overlap")
    ctx.check(iff(ov, y.overlaps(x)), "overlap is symmetric")
    if ov:
        z = x & y
        ctx.check(lnot(z.is_empty), "overlapping ranges have a common instant")
        ctx.check(iff(w in z, land(w in x, w in y)), "intersection has the common instants")


PAIRS = [("day-between", "week-between"), ("hour-between", "day-between"), ("month-between", "week-at"),
         ("static-", "day-between"), ("minute-at", "hour-at"), ("year-between", "month-at"), ("week-starting", "day-at"),
         ("day-between", "day-between"), ("month-full", "day-after")]
TRIPLES = [("day-between", "week-at", "hour-before"), ("month-at", "week-at", "day-between"), ("static-", "day-between", "week-between")]


def cases(tier):
    yield Case("range algebra", interval_algebra, budget=90, weight=3)
    for k in PAIRS:
        for e in ("a & b", "a | b"):
            yield Case(f"in {e} {','.join(k)}", inside(e, k), budget=60)
    for k in TRIPLES:
        for e in ("(a & b) | c", "(a | b) & c", "a & b & c", "a | b | c", "a & (b & c)", "a | (b | c)", "a & (b | c)", "a | (b & c)"):
            yield Case(f"in {e} {','.join(k)}", inside(e, k), budget=60)
    for k in ("day-between", "week-at"):
        for e in ("a & always", "always & a", "a | always", "always | a", "a & a", "a | a"):
            yield Case(f"in {e} {k}", inside(e, (k,)), budget=60)
    for op in "&|":
        yield Case(f"in six {op}", many(op, ("minute-after", "hour-before", "day-after", "week-before", "month-after", "day-before")), budget=60)
    q = 100 if tier == "quick" else 900
    for side in ("fwd", "back"):
        yield Case(f"roll & hour,day {side}", roll("&", ("hour-between", "day-between"), side), budget=q, weight=3)
        yield Case(f"roll & day,day {side}", roll("&", ("day-between", "day-between"), side), budget=q, weight=3)
        yield Case(f"roll & day,week {side}", roll("&", ("day-between", "week-between"), side), budget=q, weight=3)
        yield Case(f"roll & minute-full,hour-at {side}", roll("&", ("minute-full", "hour-at"), side), budget=q, weight=3)
        yield Case(f"roll & hour,day,day {side}", roll("&", ("hour-before", "day-after", "day-after"), side), budget=q, weight=3)
        yield Case(f"roll & day,day,day {side}", roll("&", ("day-after", "day-between", "day-before"), side), budget=q, weight=3)
        yield Case(f"roll | day,day {side}", roll("|", ("day-between", "day-between"), side), budget=q, weight=3)
        yield Case(f"roll | day,day,day {side}", roll("|", ("day-before", "day-at", "day-between"), side), budget=q, weight=3)
        yield Case(f"roll | day,week {side}", roll("|", ("day-between", "week-at"), side), budget=q, weight=3)
