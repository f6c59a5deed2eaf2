"""C08: conditions on a task's history count its records in the period, cached or read from the log."""
from checks.tasklib import *
from rocketry.conditions import SchedulerCycles, TaskStarted, TaskSucceeded, TaskFailed, TaskFinished, TaskTerminated, TaskInacted
from rocketry.conditions.api import started, succeeded, failed, finished
from rocketry.time import TimeOfDay, TimeOfHour, TimeOfWeek, TimeDelta

LEVEL = "model_checking"
BOUNDS = ("histories of 0-3 records (4 in the thorough tier), each of any action at any microsecond of a 3 day window up to now, in order of time; now: any "
          "microsecond of a day; periods: none, this day, this hour, a day range with symbolic hours, past duration with symbolic length; "
          "every comparison operator with a symbolic number 0-3 (also halves) and every pair of bounds; statuses cached or read from the log")
OUTSIDE = "longer histories, the same comparison given twice, records stamped in the future, log repositories other than in-memory"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]
D0 = datetime.datetime(2024, 2, 29)
D1 = datetime.datetime(2024, 2, 29, 23, 59, 59)
LO = D0 - datetime.timedelta(days=3)
COND = dict(run=TaskStarted, success=TaskSucceeded, fail=TaskFailed, terminate=TaskTerminated, inaction=TaskInacted, finish=TaskFinished)
API = dict(run=started, success=succeeded, fail=failed, finish=finished)
ACTS = dict(finish=("success", "fail", "terminate"))
OPS = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}


def compare(op, n, v):
    return {"==": lambda: n == v, "!=": lambda: n != v, "<": lambda: n < v, ">": lambda: n > v, "<=": lambda: n <= v,
            ">=": lambda: n >= v}[op]()


def period_of(ctx, kind):
    if kind == "none":
        return None
    if kind == "day":
        return TimeOfDay()
    if kind == "hour":
        return TimeOfHour()
    if kind == "range":
        return TimeOfDay(ctx.int("pa", 0, 23), ctx.int("pb", 0, 23))
    if kind == "slot":
        return TimeOfDay(*ctx.choice("slot", [("10:00", "12:30"), ("22:00", "02:00")]))
    if kind == "past":
        return TimeDelta(ctx.td("past", 1, 2 * 86400 * US))
    raise ValueError(kind)


def within(env, period, t):
    """(is the record counted for sure, may it be counted): the closing instant of a range that is over is left open"""
    if period is None:
        return True, True
    iv = period.rollback(env.nowdt)
    x = env.date(t)
    return land(iv.left <= x, lor(x < iv.right, iv.right == env.nowdt)) if True else None, \
        land(iv.left <= x, x <= iv.right)


def own_cond(kind):
    """start conditions about the task itself (the period of a task is read of them)"""
    return dict(none=None, succeeded=TaskSucceeded(), finished=TaskFinished(task="t"), other=TaskSucceeded(task="o"),
                both=TaskFinished(task="t") & TaskSucceeded(task="o"), missing=TaskFinished(task="nosuch"))[kind]


def harness(kind, what, n, ops, cached, start="none"):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        now = env.now = stamp(ctx, "now", D0, D1)
        task = env.task("t", start_cond=own_cond(start))
        other = env.task("o")
        if not cached:
            # another session is the default one
            Session(config=dict(force_status_from_logs=False)).set_as_default()
        period = period_of(ctx, kind)
        acts = ACTS.get(what, (what,))
        # the last record must not be a lone start (a crash would be recorded); other actions than counted ones fill in
        hist = history(ctx, env, task, n, acts + (("run",) if "run" not in acts else ("success",)), LO, D1, memory=cached)
        for _, t in hist:
            ctx.assume(t <= now)
        env.put(other, acts[0], stamp(ctx, "o", LO, D1))
        cond = COND[what](period=period, task="t" if ctx.flag("byname") else None)
        bounds = []
        for i, op in enumerate(ops):
            v = ctx.int(f"v{i}", 0, 3)
            bounds.append((op, v))
            cond = getattr(cond, OPS[op])(v)
        got = cond.observe(task=task, session=env.session)
        sure = count([land(a in acts, within(env, period, t)[0]) for a, t in hist])
        most = count([land(a in acts, within(env, period, t)[1]) for a, t in hist])
        if bounds:
            e1 = land(*[compare(op, sure, v) for op, v in bounds])
            e2 = land(*[compare(op, most, v) for op, v in bounds])
        else:
            e1, e2 = sure > 0, most > 0
        ctx.observe("got", got)
        ctx.check(lor(iff(got, e1), iff(got, e2)), "the condition is the comparison of the number of records in the period")
    return run


def frozen(ctx):
    """Comparing a condition makes a new one: the original keeps its meaning"""
    env = Env(ctx)
    env.now = stamp(ctx, "now", D0, D1)
    task = env.task("t")
    t = stamp(ctx, "h", LO, D1)
    ctx.assume(t <= env.now)
    n = ctx.choice("n", [0, 1])
    if n:
        env.log(task, "success", t)
    base = TaskSucceeded(period=TimeOfDay(), task="t")
    before = base.observe(task=task, session=env.session)
    op1, op2 = ctx.choice("op1", list(OPS)), ctx.choice("op2", list(OPS))
    v1, v2 = ctx.int("v1", 0, 2), ctx.int("v2", 0, 2)
    c1 = getattr(base, OPS[op1])(v1)
    s1 = c1.observe(task=task, session=env.session)
    c2 = getattr(c1 if ctx.flag("chain") else base, OPS[op2])(v2)
    c2.observe(task=task, session=env.session)
    ctx.check(iff(base.observe(task=task, session=env.session), before), "a comparison does not alter the condition it was made of")
    ctx.check(iff(c1.observe(task=task, session=env.session), s1), "a further comparison does not alter the compared condition")


def fractions(cached):
    """a limit that is not an integer"""
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        env.now = stamp(ctx, "now", D0, D1)
        task = env.task("t")
        hist = history(ctx, env, task, 2, ("success", "run"), LO, D1, memory=cached)
        for _, t in hist:
            ctx.assume(t <= env.now)
        what = ctx.choice("what", ["success", "cycles"])
        op = ctx.choice("op", list(OPS))
        v = ctx.choice("v", [0.0, 0.5, 1.0, 1.5, 2.0, 2.5])
        if what == "success":
            n = count([a == "success" for a, _ in hist])
            cond = TaskSucceeded(task="t")
        else:
            n = env.session.scheduler.n_cycles = ctx.int("cycles", 0, 4)
            cond = SchedulerCycles()
        got = getattr(cond, OPS[op])(v).observe(task=task, session=env.session)
        # n against k + 1/2
        k = int(v)
        if v == k:
            want = compare(op, n, k)
        else:
            want = {"==": False, "!=": True, "<": n <= k, "<=": n <= k, ">": n > k, ">=": n > k}[op]
        ctx.check(iff(got, want), "the condition is the comparison of the number with the limit")
    return run


def cases(tier):
    b = 120 if tier == "quick" else 400
    N = 3 if tier == "quick" else 4
    yield Case("comparisons are independent", frozen, budget=b)
    for cached in (True, False):
        c = "cached" if cached else "from log"
        yield Case(f"limits that are not integers {c}", fractions(cached), budget=b)
        for what in COND:
            for kind in ("day", "past") + ("slot",) * (what in ("run", "finish")):
                yield Case(f"{what} {kind} {c}", harness(kind, what, 2, (), cached), budget=b)
        for op in OPS:
            yield Case(f"success {op} v range {c}", harness("range", "success", 2, (op,), cached), budget=b)
            if tier != "quick" or op in ("==", ">"):
                yield Case(f"finish {op} v slot {c}", harness("slot", "finish", 2, (op,), cached), budget=b)
            yield Case(f"fail {op} v day {c}", harness("day", "fail", N, (op,), cached), budget=b)
            yield Case(f"finish {op} v past {c}", harness("past", "finish", 2, (op,), cached), budget=b)
        yield Case(f"success >= v < w hour {c}", harness("hour", "success", N, (">=", "<"), cached), budget=b)
        for start in ("succeeded", "finished", "other", "both", "missing"):
            yield Case(f"success none {c} start {start}", harness("none", "success", 2, (), cached, start), budget=b)
        yield Case(f"run > v <= w none {c}", harness("none", "run", N, (">", "<="), cached), budget=b)
