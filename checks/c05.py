"""C05: a cron expression covers exactly the minutes standard cron would run at."""
from checks.timelib import *
from checks.c01 import val
from rocketry.time import Cron

LEVEL = "model_checking"
LO5 = datetime.datetime(2024, 1, 1)
HI5 = datetime.datetime(2025, 12, 31, 23, 59, 59, 999999)
BOUNDS = ("instants: every microsecond of 2024-2025 (leap and common year); fields: '*', n, a-b (ascending), a-b/step (in lists: three ranges per field with step 2), */step (6-11 step sizes per field incl. the largest), "
          "lists of two or three of these, month and weekday names, every number of the field's range (one or two digits); one or two restricted "
          "fields at a time, all five restricted for plain numbers")
OUTSIDE = ("descending ranges other than Sunday-first week ranges, 'n/step', lists longer than three, "
           "steps combined with the day-of-month/day-of-week OR rule other than */5, lo-hi/2, (lo+1)-(lo+4)/2 and (hi-2)-hi/2")
ASSUMPTIONS = ["the hash of a period is not observed (frozenset of periods is modelled by an equality-based set)"]
RNG = dict(minute=(0, 59), hour=(0, 23), dom=(1, 31), month=(1, 12), dow=(0, 7))
EVERY = dict(minute=[1, 2, 5, 7, 15, 25, 29, 30, 31, 45, 59], hour=[2, 5, 7, 11, 12, 13, 23], dom=[2, 5, 7, 10, 15, 16, 25, 30, 31],
             month=[1, 2, 3, 4, 5, 6, 7, 11, 12], dow=[2, 3, 4, 5, 6, 7])
WIDTH = 4
STEPS = [2, 3]
FIELDS = ("minute", "hour", "dom", "month", "dow")


def value(field, t):
    if field == "minute":
        return t.minute
    if field == "hour":
        return t.hour
    if field == "dom":
        return t.day
    if field == "month":
        return t.month
    w = t.weekday() + 1     # Mon=1 .. Sun=7
    return ite(w == 7, 0, w)


def number(ctx, field, name, padded=False):
    lo, hi = RNG[field]
    two = hi > 9 and (padded or ctx.flag(name + "2"))
    ds = ctx.digits(name, 2 if two else 1)
    v = val(ds)
    ctx.assume(land(v >= lo, v <= hi))
    return ds, v


def norm(field, v):
    return ite(v == 7, 0, v) if field == "dow" else v


def field_expr(ctx, field, form, n, x, small=False):
    """-> (text, condition on the field value x)"""
    lo, hi = RNG[field]
    if field == "dow":
        hi = 6
    if form == "*":
        return "*", True
    if form in ("n", "nn"):
        s, v = number(ctx, field, n, padded=form == "nn")
        return s, x == norm(field, v)
    if form == "name":
        names = MN if field == "month" else WD
        i = ctx.choice(n + "i", range(len(names)))
        s = names[i] if ctx.flag(n + "case") else names[i].upper()
        v = i + 1 if field == "month" else (i + 1) % 7
        return s, x == v
    if form == "a-b":
        sa, a = number(ctx, field, n + "a")
        sb, b = number(ctx, field, n + "b")
        ctx.assume(a <= b)
        ok = land(a <= x, x <= b)
        if field == "dow":
            ok = lor(ok, land(b == 7, x == 0))
            ctx.zero_seven = lor(getattr(ctx, "zero_seven", False), land(a == 0, b == 7))
        return sa + "-" + sb, ok
    if form == "a-b/s" and small:
        a, b = ctx.choice(n + "ab", [(lo, hi), (lo + 1, lo + 4), (hi - 2, hi)])
        return f"{a}-{b}/2", land(a <= x, x <= b, (x - a) % 2 == 0)
    if form == "a-b/s":
        sa, a = number(ctx, field, n + "a")
        sb, b = number(ctx, field, n + "b")
        ctx.assume(a <= b)
        if field == "dow":
            ctx.assume(b <= 6)
        step = ctx.choice(n + "s", STEPS)
        if field != "dow":
            ctx.assume(b - a <= WIDTH)
        return sa + "-" + sb + "/" + str(step), land(a <= x, x <= b, (x - a) % step == 0)
    if form == "*/s":
        step = 25 if small and field == "minute" else 5 if small else ctx.choice(n + "s", EVERY[field])
        return "*/" + str(step), (x - lo) % step == 0
    if "," in form:
        parts = [field_expr(ctx, field, e, f"{n}{k}", x, small=True) for k, e in enumerate(form.split(","))]
        text = parts[0][0]
        for s, _ in parts[1:]:
            text = text + "," + s
        return text, lor(*[ok for _, ok in parts])
    raise ValueError(form)


def harness(forms, small=False):
    def run(ctx):
        t = ctx.dt("t", LO5, HI5)
        texts, oks = [], {}
        for f in FIELDS:
            s, ok = field_expr(ctx, f, forms.get(f, "*"), f, value(f, t), small)
            texts.append(s)
            oks[f] = ok
        p = Cron(*texts)
        got = t in p
        if "dom" in forms and "dow" in forms:
            day = lor(oks["dom"], oks["dow"])
        else:
            day = land(oks["dom"], oks["dow"])
        exp = land(oks["minute"], oks["hour"], oks["month"], day)
        ctx.observe("in", got)
        last = land(t.day == month_len(t.year, t.month), tod(t) == D - 1)
        ctx.check(iff(got, exp), "cron membership",
                  known=[("C05-month-last-microsecond", land("month" in forms, last)),
                         ("C05-week-range-0-7", ctx.zero_seven if hasattr(ctx, "zero_seven") else False)])
    return run


def slot(forms, side):
    """Rolling a cron period gives one minute slot"""
    def run(ctx):
        lo = datetime.datetime(2024, 2, 28)
        t = ctx.dt("t", lo, lo + datetime.timedelta(days=1) - datetime.timedelta(microseconds=1))
        u = ctx.dt("u", lo - datetime.timedelta(days=2), lo + datetime.timedelta(days=3))
        texts, conds = [], []
        for f in FIELDS:
            s, ok = field_expr(ctx, f, forms.get(f, "*"), f, value(f, u))
            texts.append(s)
            conds.append(ok)
        uin = land(*conds)
        p = Cron(*texts)
        iv = p.rollforward(t) if side == "fwd" else p.rollback(t)
        l, r = iv.left, iv.right
        ctx.observe("l", l)
        ctx.observe("r", r)
        if side == "fwd":
            ctx.check(land(l >= t, l < r), "slot follows t")
            ctx.check(lor(u < t, u >= l, lnot(uin)), "no earlier slot is skipped")
        else:
            ctx.check(land(r <= t, l < r), "slot precedes t")
            ctx.check(lor(u < r, u >= t, lnot(uin)), "no later slot is skipped")
        ctx.check(implies(land(l <= u, u < r), uin), "the slot is inside the cron period")
        m = datetime.timedelta(minutes=1)
        ctx.check(r - l <= m, "a slot is at most a minute")
        if side == "back":
            ctx.check(land(l.second == 0, l.microsecond == 0), "a slot starts at a full minute")
        else:
            ctx.check(land(r.second == 0, r.microsecond == 0), "a slot ends at a full minute")
    return run


def cases(tier):
    global WIDTH, STEPS
    STEPS = [2, 3] if tier == "quick" else [1, 2, 3, 5]
    WIDTH = 4 if tier == "quick" else 12
    b = 100 if tier == "quick" else 600
    for f in FIELDS:
        for form in ("n", "a-b", "n,n", "a-b,n", "n,a-b", "n,a-b/s", "a-b/s,n", "a-b,a-b/s", "*/s,n", "n,*/s", "*,n", "n,*", "n,n,n", "*/s", "a-b/s") + (("name",) if f in ("month", "dow") else ()):
            yield Case(f"{f} {form}", harness({f: form}), budget=b, weight=3 if "," in form else 2 if form == "a-b/s" else 1)
    yield Case("all *", harness({}), budget=b)
    yield Case("n n * * *", harness(dict(minute="n", hour="n")), budget=b)
    yield Case("n n n * *", harness(dict(minute="n", hour="n", dom="n")), budget=b)
    yield Case("* * n n *", harness(dict(dom="n", month="n")), budget=b)
    yield Case("* * n * n", harness(dict(dom="n", dow="n")), budget=b)
    yield Case("* * a-b * name", harness(dict(dom="a-b", dow="name")), budget=b)
    yield Case("* a-b n * n", harness(dict(hour="a-b", dom="n", dow="n")), budget=b)
    yield Case("* * * name name", harness(dict(month="name", dow="name")), budget=b)
    for x, y in (("n,n", "n"), ("n", "n,n"), ("n,n", "a-b"), ("a-b", "n"), ("n", "a-b")):
        yield Case(f"* * {x} * {y}", harness(dict(dom=x, dow=y)), budget=b, weight=2)
    # the OR rule of the two day fields with steps
    for x, y in (("n", "*/s"), ("*/s", "n"), ("n", "a-b/s"), ("a-b/s", "name")):
        yield Case(f"* * {x} * {y}", harness(dict(dom=x, dow=y), small=True), budget=b, weight=2)
    for i, f in enumerate(FIELDS):
        for g in FIELDS[i + 1:]:
            if (f, g) != ("dom", "dow"):
                yield Case(f"{f} n,n {g} n", harness({f: "n,n", g: "n"}), budget=b, weight=2)
                yield Case(f"{f} n {g} a-b", harness({f: "n", g: "a-b"}), budget=b, weight=2)
    yield Case("* * n,n n n", harness(dict(dom="n,n", month="n", dow="n")), budget=b, weight=2)
    if tier != "quick":
        yield Case("n n,n n * n", harness(dict(minute="n", hour="n,n", dom="n", dow="n")), budget=b, weight=2)
    yield Case("n n n n n", harness({f: "nn" for f in FIELDS}), budget=b, weight=2)
    for side in ("fwd", "back"):
        yield Case(f"slot n * * * * {side}", slot(dict(minute="n"), side), budget=b)
        if tier != "quick" or side == "fwd":
            yield Case(f"slot n n * * * {side}", slot(dict(minute="n", hour="n"), side), budget=b, weight=2)
        yield Case(f"slot a-b * * * * {side}", slot(dict(minute="a-b"), side), budget=b, weight=2)
        yield Case(f"slot * n * * * {side}", slot(dict(hour="n"), side), budget=b, weight=2)
        yield Case(f"slot * * * * * {side}", slot({}, side), budget=b)
