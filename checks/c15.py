"""C15: running conditions count the live runs by how long they have run."""
from checks.schedlib import *
from checks.timelib import us
from checks.c08 import D0, D1, LO, OPS, compare
from rocketry.conditions.api import running

LEVEL = "model_checking"
BOUNDS = ("0-3 runs started at any microsecond of the 3 days up to now, each alive or ended at any instant since; running, more_than, less_than, between "
          "with any durations of 0-2 days, comparisons with any number 0-3; own or named task; runs known from memory or from the log, "
          "with run identifiers or (runs one after another) without")
OUTSIDE = "the instant exactly at a bound (either answer is accepted)"
ASSUMPTIONS = ["threads and processes are stand-ins stepped by the harness", "floats on the microsecond grid are exact (timestamps)"]


def variant(ctx, form, op, named):
    cond = running(task="t") if named else running
    a = b = v = None
    if form == "more_than":
        a = ctx.td("a", 0, 2 * 86400 * US)
        cond = cond.more_than(a)
    elif form == "less_than":
        b = ctx.td("b", 0, 2 * 86400 * US)
        cond = cond.less_than(b)
    elif form == "between":
        a, b = ctx.td("a", 0, 2 * 86400 * US), ctx.td("b", 0, 2 * 86400 * US)
        ctx.assume(a <= b)
        cond = cond.between(a, b)
    if op is not None:
        v = ctx.int("v", 0, 3)
        cond = getattr(cond, OPS[op])(v)
    return cond, a, b, v


def judge(ctx, got, runs, a, b, op, v):
    ctx.observe("got", got)
    la = us(a) if a is not None else None
    lb = us(b) if b is not None else None
    sure = count([land(alive, True if la is None else age > la, True if lb is None else age < lb) for age, alive in runs])
    most = count([land(alive, True if la is None else age >= la, True if lb is None else age <= lb) for age, alive in runs])
    if op is None:
        e1, e2 = sure > 0, most > 0
    else:
        e1, e2 = compare(op, sure, v), compare(op, most, v)
    ctx.check(lor(iff(got, e1), iff(got, e2)), "the condition is about the number of live runs of the task with the given run time")


def memory(form, n, op=None, named=False, execution="thread"):
    """runs the scheduler has started"""
    def run(ctx):
        async def main(sim):
            task = sim.job_task("t", execution, start_cond=Flag(False), multilaunch=True)
            other = sim.job_task("o", "thread", start_cond=Flag(False))
            starts = {}
            await sim.startup()
            for i in range(n):
                task.run()
                if i == 0:
                    other.run()
                await sim.cycle()
                for j in sim.jobs:
                    starts.setdefault(j, sim.now)
                sim.later(ctx, "now", hi=D1)
            for i, j in enumerate([x for x in sim.jobs if x.name == "t"]):
                if ctx.flag(f"ended{i}"):
                    j.finish(ctx.choice(f"end{i}", ["success", "fail"]))
            await sim.turns()
            if ctx.flag("a cycle"):
                await sim.cycle()
            runs = [(us(sim.nowdt - sim.date(t)), j.alive) for j, t in starts.items() if j.name == "t"]
            cond, a, b, v = variant(ctx, form, op, named)
            got = cond.observe(task=other if named else task, session=sim.session)
            judge(ctx, got, runs, a, b, op, v)
        simulate(ctx, main, now=stamp(ctx, "now", LO, D1), timeout=datetime.timedelta(days=900), max_process_count=9)
    return run


def harness(form, n, op=None, named=False):
    """runs of the log"""
    def run(ctx):
        env = Env(ctx, force_status_from_logs=True)
        now = env.now = stamp(ctx, "now", D0, D1)
        nowdt = env.nowdt
        task = env.task("t")
        other = env.task("o")
        asker = other if named else task
        runs = []
        logged = []
        for i in range(n):
            t = stamp(ctx, f"s{i}", LO, D1)
            ctx.assume(t <= now)
            alive = ctx.flag(f"alive{i}")
            runs.append((us(nowdt - env.date(t)), alive))
            logged.append((t, "run", f"r{i}"))
            if not alive:
                e = stamp(ctx, f"e{i}", LO, D1)
                ctx.assume(land(t <= e, e <= now))
                logged.append((e, ctx.choice(f"end{i}", ["success", "fail", "terminate"]), f"r{i}"))
        for t, a, r in logged:
            env.put(task, a, t, run_id=r)
        # a run of another task
        env.put(other, "run", stamp(ctx, "ot", LO, D1), run_id="x")
        cond, a, b, v = variant(ctx, form, op, named)
        got = cond.observe(task=asker, session=env.session)
        judge(ctx, got, runs, a, b, op, v)
    return run


def sequential(form, n):
    """runs one after another, logged without run identifiers"""
    def run(ctx):
        env = Env(ctx, force_status_from_logs=True)
        now = env.now = stamp(ctx, "now", D0, D1)
        nowdt = env.nowdt
        task = env.task("t")
        prev = None
        alive, age = False, 0
        for i in range(n):
            t = stamp(ctx, f"s{i}", LO, D1)
            ctx.assume(t <= now)
            if prev is not None:
                ctx.assume(prev < t)
            age = us(nowdt - env.date(t))
            env.put(task, "run", t)
            alive = i == n - 1 and ctx.flag("alive")
            if not alive:
                e = prev = stamp(ctx, f"e{i}", LO, D1)
                ctx.assume(land(t <= e, e <= now))
                env.put(task, ctx.choice(f"end{i}", ["success", "fail", "terminate"]), e)
        for r in env.records:
            del r.run_id
        a = b = None
        cond = running
        if form == "more_than":
            a = ctx.td("a", 0, 2 * 86400 * US)
            cond = cond.more_than(a)
        elif form == "less_than":
            b = ctx.td("b", 0, 2 * 86400 * US)
            cond = cond.less_than(b)
        elif form == "between":
            a, b = ctx.td("a", 0, 2 * 86400 * US), ctx.td("b", 0, 2 * 86400 * US)
            ctx.assume(a <= b)
            cond = cond.between(a, b)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        sure = land(alive, True if a is None else age > us(a), True if b is None else age < us(b))
        most = land(alive, True if a is None else age >= us(a), True if b is None else age <= us(b))
        ctx.check(lor(iff(got, sure), iff(got, most)), "the condition is about the latest run of the task")
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    N = 2 if tier == "quick" else 3
    for form in ("running", "more_than", "less_than", "between"):
        for named in (False, True):
            k = "named" if named else "own"
            yield Case(f"{form} {k} from log", harness(form, N, None, named), budget=b)
            yield Case(f"{form} {k} memory", memory(form, N, None, named), budget=b)
        for op in OPS:
            if tier != "quick" or form in ("running", "more_than") or op in (">=", "=="):
                yield Case(f"{form} {op} v from log", harness(form, N, op), budget=b)
                yield Case(f"{form} {op} v memory", memory(form, N, op), budget=b)
    for e in ("async", "process"):
        for op in (None, "<"):
            yield Case(f"more_than {op} memory {e}", memory("more_than", N, op, execution=e), budget=b)
    yield Case("running >= v 3 runs memory", memory("running", 3, ">="), budget=b)
    if tier != "quick":
        yield Case("running >= v 3 runs from log", harness("running", 3, ">="), budget=b)
    for form in ("running", "more_than", "less_than", "between"):
        yield Case(f"{form} from log without run ids", sequential(form, N), budget=b)
