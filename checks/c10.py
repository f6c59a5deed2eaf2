"""C10: every(X): startable again only when X has passed since the latest run/success/failure/finish."""
from checks.tasklib import *
from checks.timelib import us, num
from checks.c08 import D0, D1, LO
from rocketry.conditions.api import every
from rocketry.parse import parse_condition

LEVEL = "model_checking"
BOUNDS = ("histories of 0-3 records (4 thorough) of any actions at any microsecond of the 3 days up to now; interval: any length of 1 us - 2 days as a "
          "timedelta, or any number 1-9999 of seconds, minutes or hours as a string; based on run, success, fail or finish; API and string "
          "syntax; statuses cached or read from the log")
OUTSIDE = "longer histories; the instant exactly one interval after the record (either answer is accepted)"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]
BASED = dict(run=("run",), success=("success",), fail=("fail",), finish=("success", "fail", "terminate", "inaction"))
UNITS = dict(seconds=US, minutes=60 * US, hours=3600 * US, second=US, min=60 * US, h=3600 * US)


def interval(ctx, how):
    if how == "td":
        td = ctx.td("past", 1, 2 * 86400 * US)
        return td, us(td)
    k = ctx.choice("len", [1, 2, 4])
    d = ctx.digits("num", k)
    ctx.assume(num(d) >= 1)
    return d + " " + how, num(d) * UNITS[how]


def harness(based, how, n, cached, syntax="api"):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        now = env.now = stamp(ctx, "now", D0, D1)
        nowdt = env.nowdt
        task = env.task("t")
        past, length = interval(ctx, how)
        if syntax == "api":
            cond = every(past) if based == "run" and ctx.flag("default") else every(past, based=based)
        else:
            cond = parse_condition("every " + past, session=env.session)
        acts = BASED[based]
        others = ("run",) if "run" not in acts else ("success", "fail")
        hist = history(ctx, env, task, n, acts + others, LO, D1, memory=cached)
        for _, t in hist:
            ctx.assume(t <= now)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        ages = [us(nowdt - env.date(t)) for a, t in hist if a in acts]
        recent = lor(*[a < length for a in ages]) if ages else False
        edge = lor(*[a == length for a in ages]) if ages else False
        ctx.check(lor(iff(got, lnot(recent)), edge), "startable iff nothing of the kind happened within the interval")
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    N = 3 if tier == "quick" else 4
    for cached in (True, False):
        c = "cached" if cached else "from log"
        for based in BASED:
            yield Case(f"every td {based} {c}", harness(based, "td", N, cached), budget=b)
        for unit in UNITS:
            yield Case(f"every n {unit} {c}", harness("run", unit, 2, cached), budget=b)
        yield Case(f"every n minutes finish {c}", harness("finish", "minutes", 2, cached), budget=b)
        yield Case(f"string every n minutes {c}", harness("run", "minutes", 2, cached, "string"), budget=b)
