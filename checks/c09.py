"""C09: a periodic task is startable once per occurrence of its period."""
from checks.tasklib import *
from checks.timelib import pos, us, H, M, S, D
from checks.c08 import D0, D1, LO
from rocketry.conditions import TaskExecutable, TaskRunnable
from rocketry.conditions.api import secondly, daily, hourly, minutely, weekly, monthly, cron
from rocketry.time import TimeOfDay, TimeOfHour, TimeOfWeek, TimeOfSecond, TimeOfMinute, TimeOfMonth, Cron, TimeDelta

LEVEL = "model_checking"
BOUNDS = ("histories of 0-2 records (3 in the thorough tier) of any actions at any microsecond of the 3 days up to now; now: any microsecond of "
          "2024-02-29; periods: secondly, minutely, hourly, daily, weekly, monthly whole cycles, cycles starting at a symbolic point (not monthly) and ranges (also over the end of the cycle, not monthly)/points with symbolic bounds, cron minute "
          "slots with symbolic minute; 0-2 retries; statuses cached or read from the log")
OUTSIDE = ("the very first instant of a whole-cycle occurrence (rolls to the elapsed cycle by design), longer histories, records in the future")
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]

CYC = dict(secondly=(secondly, TimeOfSecond, "second"), minutely=(minutely, TimeOfMinute, "minute"), hourly=(hourly, TimeOfHour, "hour"), daily=(daily, TimeOfDay, "day"),
           weekly=(weekly, TimeOfWeek, "week"), monthly=(monthly, TimeOfMonth, "month"))
RANGE = dict(secondly=(0, 999, 1000, 0), minutely=(0, 59, S, 0), hourly=(0, 59, M, 0), daily=(0, 23, H, 0), weekly=(1, 7, D, 1), monthly=(1, 31, D, 1))


def make(ctx, cyc, form):
    """-> (condition from the API, period, start of the ongoing occurrence given now or None, is now inside)"""
    api, cls, scope = CYC[cyc]
    lo, hi, unit, base = RANGE[cyc]
    if form == "full":
        return api, 0, None
    a = ctx.int("a", lo, hi)
    s = (a - base) * unit
    if form == "between":
        b = ctx.int("b", lo, hi)
        ctx.assume(a < b)
        return api.between(a, b), s, (b - base + 1) * unit
    if form == "after":
        ctx.assume(a > lo)
        return api.after(a), s, None
    if form == "before":
        ctx.assume(a < hi)
        return api.before(a), 0, (a - base + 1) * unit
    if form == "over":
        b = ctx.int("b", lo, hi)
        ctx.assume(a > b + 1)
        return api.between(a, b), s, (b - base + 1) * unit
    if form == "starting":
        ctx.assume(a > lo)
        return api.starting(a), s, s
    if form == "at":
        return (api.on(a) if ctx.flag("on") else api.at(a)), s, s + unit
    raise ValueError


def harness(cyc, form, n, cached, retries=None):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        now = env.now = stamp(ctx, "now", D0, D1)
        nowdt = env.nowdt
        task = env.task("t")
        cond, s, e = make(ctx, cyc, form)
        scope = CYC[cyc][2]
        if retries is not None:
            period = CYC[cyc][1](None, None) if form == "full" else cond.period
            r = ctx.int("r", 0, retries)
            cond = TaskExecutable(period=period, retries=r)
        else:
            r = 0
        hist = history(ctx, env, task, n, TERMINAL[:4] + ("run",), LO, D1, memory=cached)
        for _, t in hist:
            ctx.assume(t <= now)
        x = pos(scope, nowdt)
        if form == "full":
            ctx.assume(x > 0)
        elif form == "between":
            lo, hi, unit, base = RANGE[cyc]
            # the whole cycle given as a range
            ctx.assume(lor(x > 0, s > 0, e < (hi - base + 1) * unit))
        if form == "over":
            inside = lor(x >= s, x < e)
        elif form == "starting":
            ctx.assume(x != s)
            inside = True
        else:
            inside = land(x >= s, True if e is None else x < e)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        # the ongoing occurrence started (x - s) ago
        age = x - s
        if form in ("over", "starting"):
            lo, hi, unit, base = RANGE[cyc]
            age = ite(x >= s, x - s, x - s + (hi - base + 1) * unit)
        def ongoing(t):
            return us(nowdt - env.date(t)) <= age
        done = lor(*[ongoing(t) for a, t in hist if a in ("success", "inaction", "terminate")]) if hist else False
        fails = count([ongoing(t) for a, t in hist if a == "fail"])
        ctx.check(iff(got, land(inside, lnot(done), fails <= r)),
                  "startable iff in the period and not finished (failures within retries) in the ongoing occurrence")
    return run


def slot(n, cached, form):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        now = env.now = stamp(ctx, "now", D0, D1)
        nowdt = env.nowdt
        task = env.task("t")
        if form == "*":
            cond, minute = cron("* * * * *"), None
        else:
            minute = ctx.choice("m", [0, 7, 30, 59])
            cond = cron(f"{minute} * * * *") if form == "n" else cron(minute=str(minute))
        hist = history(ctx, env, task, n, ("run", "success", "fail"), LO, D1, memory=cached)
        for _, t in hist:
            ctx.assume(t <= now)
        ctx.assume(lor(nowdt.second > 0, nowdt.microsecond > 0))
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        age = nowdt.second * S + nowdt.microsecond
        def this(t):
            return us(nowdt - env.date(t)) <= age
        ran = lor(*[this(t) for a, t in hist if a == "run"]) if [1 for a, t in hist if a == "run"] else False
        ctx.check(iff(got, land(True if minute is None else nowdt.minute == minute, lnot(ran))),
                  "a cron task is startable iff the minute matches and it has not started in it")
    return run


def cases(tier):
    b = 120 if tier == "quick" else 600
    N = 2 if tier == "quick" else 3
    for cached in (True, False):
        c = "cached" if cached else "from log"
        for cyc in CYC:
            yield Case(f"{cyc} full {c}", harness(cyc, "full", N, cached), budget=b)
            for form in ("between", "after", "before", "at"):
                if cyc == "daily" or (cached and form in ("between", "at")) or tier != "quick":
                    yield Case(f"{cyc} {form} {c}", harness(cyc, form, N, cached), budget=b)
            if cyc != "monthly":
                for form in ("over", "starting"):
                    if cyc == "daily" or cached or tier != "quick":
                        yield Case(f"{cyc} {form} {c}", harness(cyc, form, N, cached), budget=b)
        yield Case(f"daily full retries {c}", harness("daily", "full", 3, cached, retries=2), budget=b)
        yield Case(f"hourly between retries {c}", harness("hourly", "between", 2, cached, retries=2), budget=b)
        for form in ("*", "n", "kw"):
            yield Case(f"cron {form} {c}", slot(N, cached, form), budget=b)
