"""C29: the string syntax of conditions and periods means what it says."""
from checks.tasklib import *
from checks.timelib import num, us, pos, S, M, H, D, WD, WDL
from checks.c08 import D0, D1, LO
from rocketry.parse import parse_condition, parse_time
from rocketry.conditions.api import *
from rocketry.conditions import TaskTerminated, TaskInacted, TaskExecutable, TaskRunnable, IsPeriod
from rocketry.time import *
from rocketry.time import TimeDelta

LEVEL = "model_checking"
BOUNDS = ("every documented string form of period and history conditions; clock times as any digits hh:mm (mm:ss for hours), every week day name, days of month 1-31; "
          "durations of any 1-2 digits; now: any microsecond of 2024-02-29; history of 0-2 records of any microseconds of the 3 days before; "
          "scheduler cycles of any 1, 2 or 4 digits")
OUTSIDE = "task names with quotes, longer histories; after task ... is in C12, durations in C06, logic in C07"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]
CLS = dict(minute=TimeOfMinute, hour=TimeOfHour, day=TimeOfDay, week=TimeOfWeek, month=TimeOfMonth)
EXEC = dict(minute="minutely", hour="hourly", day="daily", week="weekly", month="monthly")
HAS = dict(minute="this minute", hour="this hour", day="today", week="this week", month="this month")
ACTION = dict(started=("run",), succeeded=("success",), failed=("fail",), terminated=("terminate",), inacted=("inaction",),
              finished=("success", "fail", "terminate"))


def point(ctx, name, scope):
    """-> (text, start of the point in the cycle, end of it)"""
    if scope == "day":
        h, m = ctx.digits(name + "h", 2), ctx.digits(name + "m", 2)
        ctx.assume(land(num(h) < 24, num(m) < 60))
        x = num(h) * H + num(m) * M
        return h + ":" + m, x, x
    if scope == "hour":
        m, s = ctx.digits(name + "m", 2), ctx.digits(name + "s", 2)
        ctx.assume(land(num(m) < 60, num(s) < 60))
        x = num(m) * M + num(s) * S
        return m + ":" + s, x, x
    if scope == "minute":
        s = ctx.digits(name + "s", 2)
        ctx.assume(num(s) < 60)
        return s, num(s) * S, num(s) * S
    if scope == "week":
        i = ctx.choice(name + "w", range(7))
        return (WD if ctx.flag(name + "short") else WDL)[i], i * D, (i + 1) * D
    if scope == "month":
        d = ctx.int(name + "d", 1, 31)
        k = ctx.choice(name + "d", [1, 2, 3, 5, 21, 29])
        suf = {1: "st", 2: "nd", 3: "rd"}.get(k % 10, "th")
        return f"{k}{suf}" if ctx.flag(name + "suf") else f"{k}.", (k - 1) * D, k * D
    raise ValueError(scope)


def member(x, s, e):
    return lor(s == e, ite(s < e, land(s <= x, x < e), lor(x >= s, x < e)))


def span(ctx, scope, form):
    """-> (text after the scope, start, end in the cycle (None: to the end / whole))"""
    if form == "full":
        return "", 0, None
    t, s, e = point(ctx, "a", scope)
    if form == "after":
        return " after " + t, s, None
    if form == "before":
        return " before " + t, 0, e
    if form == "on":
        return " on " + t, s, e
    t2, s2, e2 = point(ctx, "b", scope)
    ctx.assume(s < e2)
    return " between " + t + " and " + t2, s, e2


def inside(scope, now, s, e):
    x = pos(scope, now)
    return land(x >= s, True if e is None else x < e)


def setup(ctx, n, acts):
    env = Env(ctx)
    now = env.now = stamp(ctx, "now", D0, D1)
    task = env.task("t")
    hist = history(ctx, env, task, n, acts, LO, D1, memory=True)
    for _, t in hist:
        ctx.assume(t <= now)
    return env, task, hist, env.nowdt


def timeof(scope, form, cond):
    def run(ctx):
        env, task, hist, now = setup(ctx, 0, ())
        text, s, e = span(ctx, scope, form)
        text = "time of " + scope + text
        if form == "before":
            ctx.assume(e > 0)
        if cond:
            got = parse_condition(text, session=env.session).observe(task=task, session=env.session)
        else:
            got = now in parse_time(text, session=env.session)
        ctx.observe("got", got)
        ctx.check(iff(got, inside(scope, now, s, e)), "time of ... is about the place of now in the cycle")
    return run


def execution(scope, form):
    def run(ctx):
        env, task, hist, now = setup(ctx, 1, ("success", "run", "fail"))
        text, s, e = span(ctx, scope, form)
        if form == "before":
            ctx.assume(e > 0)
        x = pos(scope, now)
        ctx.assume(x > 0)
        cond = parse_condition(EXEC[scope] + text, session=env.session)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        done = lor(*[us(now - env.date(t)) <= x - s for a, t in hist if a != "run"]) if hist else False
        ctx.check(iff(got, land(inside(scope, now, s, e), lnot(done))), "startable iff in the period and not finished in the ongoing one")
    return run


def starting(scope):
    def run(ctx):
        env, task, hist, now = setup(ctx, 1, ("success",))
        t, s, e = point(ctx, "a", scope)
        cond = parse_condition(EXEC[scope] + " starting " + t, session=env.session)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        x = pos(scope, now)
        size = dict(hour=H, day=D, week=7 * D, month=31 * D)[scope]
        ctx.assume(x != s)
        age = ite(x >= s, x - s, x - s + size)
        ctx.check(iff(got, lnot(us(now - env.date(hist[0][1])) <= age)), "once per cycle counted from the given point")
    return run


def has(action, scope, form, named):
    def run(ctx):
        acts = ACTION[action]
        env, task, hist, now = setup(ctx, 1, acts + (("run",) if "run" not in acts else ("fail",)))
        other = env.task("o")
        text, s, e = span(ctx, scope, form)
        if form == "before":
            ctx.assume(e > 0)
        x = pos(scope, now)
        # the span has begun in the ongoing cycle
        ctx.assume(x > s)
        text = "has " + action + " " + HAS[scope] + text
        if named:
            text = "task 't' " + text
        got = parse_condition(text, session=env.session).observe(task=other if named else task, session=env.session)
        ctx.observe("got", got)
        ages = [us(now - env.date(t)) for a, t in hist if a in acts]
        want = lor(*[land(a <= x - s, True if e is None else a > x - e) for a in ages]) if ages else False
        edge = lor(*[a == x - e for a in ages]) if ages and e is not None else False
        ctx.check(lor(iff(got, want), edge), "has ... is about the records of the latest such time")
    return run


def has_since(action, scope):
    def run(ctx):
        acts = ACTION[action]
        env, task, hist, now = setup(ctx, 1, acts + (("run",) if "run" not in acts else ("fail",)))
        t, s, e = point(ctx, "a", scope)
        x = pos(scope, now)
        ctx.assume(x > s)
        got = parse_condition("has " + action + " " + HAS[scope] + " starting " + t, session=env.session).observe(task=task, session=env.session)
        ctx.observe("got", got)
        ages = [us(now - env.date(t)) for a, t in hist if a in acts]
        ctx.check(iff(got, lor(*[a <= x - s for a in ages]) if ages else False), "has ... starting is about the records since that point")
    return run


def is_running(ctx):
    env = Env(ctx, force_status_from_logs=True)
    now = env.now = stamp(ctx, "now", D0, D1)
    task, other = env.task("t"), env.task("o")
    t = stamp(ctx, "t", LO, D1)
    ctx.assume(t <= now)
    env.put(task, "run", t, run_id="1")
    ended = ctx.flag("ended")
    if ended:
        e = stamp(ctx, "e", LO, D1)
        ctx.assume(land(t <= e, e <= now))
        env.put(task, ctx.choice("how", TERMINAL), e, run_id="1")
    for text in ("task 't' is running", "while task 't' is running"):
        ctx.check(iff(parse_condition(text, session=env.session).observe(task=other, session=env.session), not ended), "is running")
    ctx.check(not parse_condition("task 'o' is running", session=env.session).observe(task=task, session=env.session), "is running, another")


def parameters(ctx):
    env = Env(ctx)
    have = {k: ctx.choice("has " + k, [None, "1", "2"]) for k in ("x", "y")}
    for k, v in have.items():
        if v is not None:
            env.session.parameters[k] = v
    for k in have:
        got = parse_condition(f"param '{k}' exists", session=env.session).observe(session=env.session)
        ctx.check(iff(got, have[k] is not None), "param exists")
        for v in ("1", "2"):
            got = parse_condition(f"param '{k}' is '{v}'", session=env.session).observe(session=env.session)
            ctx.check(iff(got, have[k] == v), "param is")
    both = parse_condition("param 'x', 'y' exists", session=env.session).observe(session=env.session)
    ctx.check(iff(both, have["x"] is not None and have["y"] is not None), "params exist")


def window(ctx):
    """past and every as periods; cron"""
    env, task, hist, now = setup(ctx, 1, ("run", "success"))
    d = ctx.digits("d", 2)
    ctx.assume(num(d) > 0)
    word = ctx.choice("word", ["every ", "past "])
    p = parse_time(word + d + " minutes", session=env.session)
    iv = p.rollback(now)
    ctx.check(land(us(now - iv.left) == num(d) * M, us(now - iv.right) == 0), "a period of the past")
    m = ctx.choice("m", [0, 7, 30, 59])
    ctx.assume(lor(now.second > 0, now.microsecond > 0))
    got = parse_condition(f"cron {m} * * * *", session=env.session).observe(task=task, session=env.session)
    age = now.second * S + now.microsecond
    ran = lor(*[us(now - env.date(t)) <= age for a, t in hist if a == "run"]) if [1 for a, t in hist if a == "run"] else False
    ctx.check(iff(got, land(now.minute == m, lnot(ran))), "cron")


def past(action, how):
    def run(ctx):
        acts = ACTION[action]
        env, task, hist, now = setup(ctx, 2, acts + (("run",) if "run" not in acts else ("fail",)))
        d = ctx.digits("d", 2)
        length = num(d) * H
        cond = parse_condition("has " + action + how + d + " hours", session=env.session)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        ages = [us(now - env.date(t)) for a, t in hist if a in acts]
        want = lor(*[a < length for a in ages]) if ages else False
        edge = lor(*[a == length for a in ages]) if ages else False
        ctx.check(lor(iff(got, want), edge), "has ... past is about the records of that long")
    return run


def scheduler(ctx):
    env, task, hist, now = setup(ctx, 0, ())
    n = env.session.scheduler.n_cycles = ctx.int("cycles", 0, 20000)
    d = ctx.digits("d", ctx.choice("k", [1, 2, 4]))
    form = ctx.choice("form", ["more", "less", "eq"])
    text, want = {"more": ("scheduler has more than " + d + " cycles", n > num(d)), "less": ("scheduler has less than " + d + " cycles", n < num(d)),
                  "eq": ("scheduler has " + d + " cycles", n == num(d))}[form]
    ctx.check(iff(parse_condition(text, session=env.session).observe(session=env.session), want), "number of cycles")
    if form != "eq":
        api = scheduler_cycles(more_than=num(d)) if form == "more" else scheduler_cycles(less_than=num(d))
        ctx.check(iff(api.observe(session=env.session), want), "number of cycles (API)")


def scheduler_time(ctx):
    env, task, hist, now = setup(ctx, 0, ())
    t0 = stamp(ctx, "t0", LO, D1)
    ctx.assume(t0 <= env.now)
    env.session.scheduler.startup_time = env.date(t0)
    age = us(now - env.session.scheduler.startup_time)
    d = ctx.digits("d", 2)
    length = num(d) * M
    over = parse_condition("scheduler has run over " + d + " minutes", session=env.session).observe(session=env.session)
    ago = parse_condition("scheduler started " + d + " minutes ago", session=env.session).observe(session=env.session)
    api = scheduler_running(more_than=d + " minutes").observe(session=env.session)
    less = scheduler_running(less_than=d + " minutes").observe(session=env.session)
    ctx.observe("got", [over, ago, api, less])
    e = age == length
    ctx.check(lor(e, iff(over, age > length)), "has run over")
    ctx.check(lor(e, iff(ago, age < length)), "started ... ago")
    ctx.check(lor(e, iff(api, age > length)), "scheduler running more than")
    ctx.check(lor(e, iff(less, age < length)), "scheduler running less than")


def misc(ctx):
    env, task, hist, now = setup(ctx, 0, ())
    text, want = ctx.choice("t", [("true", True), ("false", False), ("always true", True), ("always false", False), ("always", True),
                                  ("~never", True), ("never", False), ("~always", False)])
    ctx.check(iff(parse_condition(text, session=env.session).observe(task=task, session=env.session), want), "constants")
    e1, e2 = ctx.choice("e1", ["prod", "test"]), ctx.choice("e2", ["prod", "test", None])
    if e2 is not None:
        env.session.parameters["env"] = e2
    ctx.check(iff(parse_condition(f"env '{e1}'", session=env.session).observe(session=env.session), e1 == e2), "env")


def cases(tier):
    b = 60 if tier == "quick" else 300
    yield Case("is running", is_running, budget=b)
    yield Case("parameters", parameters, budget=b)
    yield Case("past, every, cron", window, budget=b)
    for scope in ("minute", "hour", "day", "week", "month"):
        if scope != "month" or tier != "quick":
            yield Case(f"has failed {HAS[scope]} starting", has_since("failed", scope), budget=b)
        for form in ("after", "before", "between") + (("on",) if scope in ("week", "month") else ()):
            yield Case(f"time of {scope} {form}", timeof(scope, form, True), budget=b)
            if scope in ("day", "week") or tier != "quick":
                yield Case(f"period time of {scope} {form}", timeof(scope, form, False), budget=b)
        for form in ("full", "after", "before", "between") + (("on",) if scope in ("week", "month") else ()):
            yield Case(f"{EXEC[scope]} {form}", execution(scope, form), budget=b)
            for action in (["succeeded", "finished"] if tier == "quick" else ACTION):
                if tier != "quick" or form in ("full", "after", "on", "between"):
                    yield Case(f"has {action} {HAS[scope]} {form}", has(action, scope, form, action == "finished"), budget=b)
        if scope not in ("month", "minute"):
            yield Case(f"{EXEC[scope]} starting", starting(scope), budget=b)
    for action in ACTION:
        yield Case(f"has {action} today", has(action, "day", "full", True), budget=b)
        yield Case(f"has {action} past", past(action, " past "), budget=b)
        yield Case(f"has {action} in past", past(action, " in past "), budget=b)
    yield Case("scheduler cycles", scheduler, budget=b)
    yield Case("scheduler time", scheduler_time, budget=b)
    yield Case("constants", misc, budget=b)
