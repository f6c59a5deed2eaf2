"""C22: what a start of the scheduler takes from the log of the earlier ones."""
from checks.schedlib import *
from rocketry.conditions import TaskRunning

LEVEL = "model_checking"
BOUNDS = ("1-2 tasks with 0-4 records each (6 thorough): any whole runs with any ends and possibly one run that never ended, at any microseconds of 3 days; "
          "the scheduler stopped and started again 1-2 times; records as objects or dicts; statuses cached or read from the log")
OUTSIDE = "longer histories; several runs of one task at the time of a crash; records out of order of time; two runs within one tick of the clock"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]


def past(ctx, env, name, n, as_dict):
    """whole runs, the last of which may lack its end; -> [(action, time, run_id)]"""
    out = []
    prev = None
    for i in range(n):
        if i % 2 == 0:
            action = "run"
        else:
            action = ctx.choice(f"{name}.a{i}", TERMINAL)
        t = stamp(ctx, f"{name}.t{i}", LO_, D1_HI)
        ctx.assume(t <= env.now)
        if prev is not None:
            ctx.assume(prev < t if action == "run" else prev <= t)
        prev = t
        rid = f"{name}-{i // 2}"
        out.append((action, t, rid))
        if as_dict:
            env.repo.collection.append(dict(task_name=name, action=action, created=t, run_id=rid))
        else:
            env.put(name, action, t, run_id=rid)
    return out


def get(r, k):
    return r.get(k) if isinstance(r, dict) else getattr(r, k, None)


def harness(ns, cached, as_dict=False, restarts=1):
    def run(ctx):
        async def main(sim):
            if as_dict:
                sim.repo = MemoryRepo(model=dict, collection=[])
                sim.handler.repo = sim.repo
            tasks = [sim.job_task(f"t{i}", "async", start_cond=Flag(False)) for i in range(len(ns))]
            hist = {t.name: past(ctx, sim, t.name, n, as_dict) for t, n in zip(tasks, ns)}
            total = sum(ns)
            at = None
            for k in range(restarts):
                if k:
                    sim.later(ctx, "now")
                at = sim.now if at is None else at
                await sim.startup()
            new = sim.repo.collection[total:]
            for t in tasks:
                h = hist[t.name]
                crashed = bool(h) and h[-1][0] == "run"
                mine = [r for r in new if get(r, "task_name") == t.name]
                ctx.check([get(r, "action") for r in mine] == (["crash"] if crashed else []),
                          "a run that never ended is recorded once as crashed, and nothing else is", repr(mine))
                if crashed and mine:
                    ctx.check(get(mine[0], "run_id") == h[-1][2], "the record of a crash tells which run crashed", repr(mine))
                    ctx.check(get(mine[0], "created") == at, "a crash is recorded at the start of the scheduler")
                    h = h + [("crash", at, None)]
                ctx.check(t.get_status() == (h[-1][0] if h else None), "the status is that of the latest record", f"{t.get_status()} {h}")
                for a in STATUS:
                    last = [x for b, x, _ in h if b == a]
                    got = sim.last(t, a)
                    ctx.check(got is None if not last else got is not None and got == sim.date(last[-1]), "the latest times are those of the log", a)
                ctx.check(lnot(TaskRunning(task=t.name).observe(session=sim.session)), "nothing is running after a start")
            ctx.observe("status", [t.get_status() for t in tasks])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), force_status_from_logs=not cached)
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    q = tier == "quick"
    for cached in (True, False):
        c = "cached" if cached else "from log"
        for n in range(0, 5 if q else 7):
            yield Case(f"{n} records {c}", harness([n], cached), budget=b)
        for n in (1, 2, 3):
            yield Case(f"{n} records, two starts {c}", harness([n], cached, restarts=2), budget=b)
        for n in (1, 2, 3):
            yield Case(f"{n} records as dicts {c}", harness([n], cached, as_dict=True), budget=b)
        yield Case(f"two tasks {c}", harness([1, 2], cached), budget=b)
        yield Case(f"two tasks with crashes {c}", harness([3, 1], cached, restarts=2), budget=b)
