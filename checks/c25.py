"""C25: with a timezone conditions and times are those of the clock of that zone."""
from checks.schedlib import *
from checks.timelib import land, lor, lnot, iff, implies, ite
from checks.c08 import D0, D1, LO
from rocketry.conditions import IsPeriod, SchedulerStarted, TaskStarted, TaskSucceeded
from rocketry.conditions.api import (after_finish, after_success, cron, daily, every, hourly, minutely, monthly, retry, running, scheduler_running,
                                     started, succeeded, failed, finished, time_of_day, time_of_hour, time_of_month, time_of_week, weekly)
from rocketry.parse import parse_condition
from rocketry.time import StaticInterval, TimeDelta, TimeOfDay, TimeOfWeek, TimeSpanDelta, always

LEVEL = "model_checking"
BOUNDS = ("any fixed offset of whole minutes from UTC-12:00 to UTC+14:00, the computer's own zone UTC; any microsecond of a day, 1-2 records of any actions in the "
          "3 days before; every kind of period and history condition with a few clock bounds each; fixed periods and durations of any microseconds")
OUTSIDE = "zones whose offset changes (daylight saving), a computer's own zone other than UTC"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]
HOUR = 3600 * US


def hhmm(ctx, name):
    return ctx.choice(name, ["00:00", "06:30", "17:45"])


def offset(ctx):
    return minutes_of(ctx.int("off", -720, 840))


CONDS = {
    "daily": lambda c, e: daily,
    "daily after": lambda c, e: daily.after(hhmm(c, "a")),
    "daily before": lambda c, e: daily.before(hhmm(c, "a")),
    "daily between": lambda c, e: daily.between(*c.choice("a", [("22:00", "06:30"), ("06:30", "17:45")])),
    "daily at": lambda c, e: daily.at("17:45"),
    "daily starting": lambda c, e: daily.starting("06:30"),
    "hourly": lambda c, e: hourly,
    "hourly after": lambda c, e: hourly.after("30:00"),
    "minutely": lambda c, e: minutely,
    "weekly": lambda c, e: weekly,
    "weekly on": lambda c, e: weekly.on(c.choice("d", ["Mon", "Thu", "Sunday"])),
    "monthly": lambda c, e: monthly,
    "monthly on": lambda c, e: monthly.on("1st"),
    "every": lambda c, e: every("10 hours"),
    "cron": lambda c, e: cron("30 17 * * *"),
    "cron day": lambda c, e: cron("* * 29 2 *"),
    "time of day": lambda c, e: time_of_day.between(hhmm(c, "a"), hhmm(c, "b")),
    "time of day after": lambda c, e: time_of_day.after(hhmm(c, "a")),
    "time of hour": lambda c, e: time_of_hour.after("30:00"),
    "time of week": lambda c, e: time_of_week.between("Wed", "Fri 12:00"),
    "time of month": lambda c, e: time_of_month.after("29th"),
    "both": lambda c, e: IsPeriod(TimeOfDay("10:00", "18:00") & TimeOfWeek("Thu", "Fri")),
    "either": lambda c, e: IsPeriod(TimeOfDay("22:00", "03:00") | TimeOfWeek("Fri", "Fri")),
    "always": lambda c, e: IsPeriod(always),
    "text today": lambda c, e: parse_condition("has succeeded today", session=e.session),
    "text past": lambda c, e: parse_condition("has failed past 3 hours", session=e.session),
    "text this hour": lambda c, e: parse_condition("task 't' has started this hour", session=e.session),
    "text between": lambda c, e: parse_condition("has finished today between 10:00 and 18:00", session=e.session),
    "text time": lambda c, e: parse_condition("time of day between 10:00 and 18:00", session=e.session),
    "succeeded ever": lambda c, e: TaskSucceeded(),
    "succeeded always": lambda c, e: TaskSucceeded(period=always),
    "started in both": lambda c, e: TaskStarted(period=TimeOfDay("10:00", "18:00") & TimeOfWeek("Thu", "Fri")),
    "succeeded this week": lambda c, e: succeeded.this_week,
    "failed today after": lambda c, e: failed.today.after("16:00"),
    "finished this month": lambda c, e: finished.this_month,
    "started this minute": lambda c, e: started.this_minute,
    "after": lambda c, e: after_success("o"),
    "retry": lambda c, e: retry(2),
    "running": lambda c, e: running,
    "running more": lambda c, e: running.more_than("2 hours"),
    "running less": lambda c, e: running.less_than("2 hours"),
    "running between": lambda c, e: running.between("2 hours", "9 hours"),
    "started span": lambda c, e: TaskStarted(period=TimeSpanDelta("2 hours", "9 hours")),
    "started past": lambda c, e: TaskStarted(period=TimeSpanDelta("2 hours")),
}
HISTORY = {"after", "retry"} | {k for k in CONDS if k.split()[0] in ("daily", "hourly", "minutely", "weekly", "monthly", "every", "cron", "text", "succeeded", "started",
                                                                    "failed", "finished", "running")} - {"text time"}


def same(name, cached, n=1):
    """the condition in the zone is as it is without one at the time that the clock of the zone shows"""
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        off = offset(ctx)
        secs = off.total_seconds()
        now = stamp(ctx, "now", D0, D1)
        t, o = env.task("t"), env.task("o")
        recs = []
        if name in HISTORY:
            for i in range(n):
                who = t if not recs and name != "after" else ctx.choice(f"who{i}", [t, o])
                recs.append((who, ctx.choice(f"act{i}", STATUS if n == 1 else ("run", "success", "fail")), stamp(ctx, f"t{i}", LO, D1)))
                ctx.assume(recs[-1][2] <= now)
                if i:
                    ctx.assume(recs[-2][2] <= recs[-1][2])
        got = []
        for zone in (True, False):
            del env.repo.collection[:]
            env.session.config.timezone = zone_of(off) if zone else None
            env.now = now if zone else now + secs
            for who, act, at in recs:
                env.put(who, act, at if zone else at + secs)
            for x in (t, o):
                x.set_cached()
            cond = CONDS[name](ctx, env) if zone else cond
            got.append(cond.observe(task=t, session=env.session))
        ctx.observe("in the zone", got[0])
        ctx.check(iff(got[0], got[1]), "a condition goes by the clock of the zone")
    return run


def times(action):
    """the times a task tells are those of the zone and the same instants"""
    def run(ctx):
        env = Env(ctx)
        off = offset(ctx)
        env.now = stamp(ctx, "now", D0, D1)
        t = env.task("t")
        at = stamp(ctx, "at", LO, D1)
        env.put(t, action, at)
        env.session.config.timezone = zone_of(off)
        t.set_cached()
        got = getattr(t, "last_" + action)
        ctx.check(got.utcoffset() == off, "a time that a task tells is of the zone")
        naive = got.replace(tzinfo=None)
        ctx.check(naive == date_of(at) + off, "a time that a task tells is what the clock of the zone showed")
        ctx.check(got.timestamp() == at, "a time that a task tells is the instant of the record")
        now = env.session._get_datetime_now()
        ctx.check(now.replace(tzinfo=None) == date_of(env.now) + off, "the time of the session is that of the zone")
    return run


def scheduler(form):
    """how long the scheduler or a run has been on does not depend on the zone"""
    def run(ctx):
        off = offset(ctx)

        async def main(sim):
            sim.session.config.timezone = zone_of(off)
            task = sim.job_task("t", "async", start_cond=Flag(form == "run"), timeout=datetime.timedelta(days=900))
            began = sim.now
            await sim.cycle()
            task.start_cond.value = False
            sim.later(ctx, "later", hi=D1)
            d = ctx.td("d", 0, 48 * HOUR)
            e = ctx.td("e", 0, 48 * HOUR)
            ctx.assume(d <= e)
            age = us_(sim.now - began)
            if form == "run":
                for name, cond, sure, most in (("any", running, True, True),
                                               ("more", running.more_than(d), age > us(d), age >= us(d)),
                                               ("less", running.less_than(d), age < us(d), age <= us(d)),
                                               ("between", running.between(d, e), land(age > us(d), age < us(e)), land(age >= us(d), age <= us(e)))):
                    got = cond.observe(task=task, session=sim.session)
                    ctx.check(land(implies(sure, got), implies(got, most)), f"a run is as old in any zone: {name}")
            else:
                got = SchedulerStarted(period=TimeDelta(d)).observe(session=sim.session)
                ctx.check(iff(got, age <= us(d)), "the scheduler has been on as long in any zone: started")
                got = scheduler_running(d).observe(session=sim.session)
                ctx.check(land(implies(age > us(d), got), implies(got, age >= us(d))), "the scheduler has been on as long in any zone: more")
                got = scheduler_running(less_than=e, more_than=d).observe(session=sim.session)
                ctx.check(land(implies(land(age > us(d), age < us(e)), got), implies(got, land(age >= us(d), age <= us(e)))),
                          "the scheduler has been on as long in any zone: between")
        simulate(ctx, main, now=stamp(ctx, "now", LO, D1))
    return run


def static(form):
    """fixed datetimes without a zone are of the computer's own zone, those with one of theirs"""
    def run(ctx):
        env = Env(ctx)
        off = offset(ctx)
        env.session.config.timezone = zone_of(off)
        env.now = stamp(ctx, "now", LO, D1)
        t = env.task("t")
        lo, hi = ctx.dt("lo", LO, D1), ctx.dt("hi", LO, D1)
        ctx.assume(lo < hi)
        at = env.nowdt
        if form == "between":
            cond, want = IsPeriod(StaticInterval(lo, hi)), land(lo <= at, at < hi)
        elif form == "since":
            cond, want = IsPeriod(StaticInterval(lo)), lo <= at
        elif form == "until":
            cond, want = IsPeriod(StaticInterval(end=hi)), at < hi
        elif form == "with a zone":
            zone = zone_of(datetime.timedelta(hours=ctx.choice("zone", [0, -5, 3])))
            cond, want = IsPeriod(StaticInterval(lo.replace(tzinfo=zone), hi.replace(tzinfo=zone))), land(lo <= at + zone.utcoffset(None), at + zone.utcoffset(None) < hi)
        elif form == "started":
            s = stamp(ctx, "s", LO, D1)
            ctx.assume(s <= env.now)
            env.put(t, "run", s)
            t.set_cached()
            sd = env.date(s)
            cond, want = TaskStarted(period=StaticInterval(lo, hi)), land(lo <= sd, sd < hi)
            ctx.assume(lnot(sd == hi))
        ctx.check(iff(cond.observe(task=t, session=env.session), want), "a fixed period is the same instants in any zone")
    return run


def us_(secs):
    return secs * US


def us(d):
    return d.total_seconds() * US


def cases(tier):
    b = 60 if tier == "quick" else 300
    for name in CONDS:
        if name in HISTORY:
            for cached in (True, False):
                c = "cached" if cached else "from log"
                heavy = name.split()[0] in ("daily", "weekly", "monthly", "hourly", "minutely", "cron") or name == "started in both"
                if tier == "quick" and (name == "cron day" or name == "cron" and not cached):
                    continue
                yield Case(f"{name} {c}", same(name, cached, 1 if heavy and tier == "quick" else 2), budget=b)
        else:
            yield Case(f"{name}", same(name, True), budget=b)
    for a in STATUS:
        yield Case(f"times of {a}", times(a), budget=b)
    for form in ("run", "scheduler"):
        yield Case(f"age of {form}", scheduler(form), budget=b)
    for form in ("between", "since", "until", "with a zone", "started"):
        yield Case(f"fixed {form}", static(form), budget=b)
