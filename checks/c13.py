"""C13: retry(n): a failed task is startable again at most n times in a row."""
from checks.tasklib import *
from checks.c08 import D0, D1, LO
from rocketry.conditions.api import retry
from rocketry.conditions import Retry
from rocketry.parse import parse_condition

LEVEL = "model_checking"
BOUNDS = ("histories of 0-5 records (7 thorough) of any actions at strictly increasing instants (any microseconds of 3 days); rows of 12 failures; n: any of 0..4 (0..1000 for the row of 12, 0..1000000 for 3 records) or unlimited; "
          "records as objects or dictionaries; statuses cached or read from the log")
OUTSIDE = "longer histories, simultaneous records"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]


def harness(n, cached, actions, asdict=False, most=4):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        if asdict:
            env.repo = MemoryRepo(model=dict, collection=[])
            env.handler.repo = env.repo
        env.now = stamp(ctx, "now", D1, D1 + datetime.timedelta(days=1))
        task = env.task("t")
        other = env.task("o")
        hist = []
        prev = None
        for i in range(n):
            a = ctx.choice(f"h{i}a", actions)
            t = stamp(ctx, f"h{i}t", LO, D1)
            if prev is not None:
                ctx.assume(prev < t)
            prev = t
            hist.append((a, t))
            rec = dict(task_name="t", action=a, created=t, run_id=None)
            env.repo.collection.append(rec if asdict else Rec(**rec))
        orec = dict(task_name="o", action="success", created=stamp(ctx, "o", LO, D1), run_id=None)
        env.repo.collection.append(orec if asdict else Rec(**orec))
        if hist and cached:
            task.status = hist[-1][0]
        kind = ctx.choice("kind", ["number", "none", "bare"])
        if kind == "number":
            limit = ctx.int("n", 0, most)
            cond = retry(limit)
        else:
            limit = None
            cond = Retry(None) if kind == "none" else retry
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        # number of failures since the latest other end
        fails = 0
        for a, _ in hist:
            if a == "fail":
                fails = fails + 1
            elif a != "run":
                fails = 0
        failed = bool(hist) and hist[-1][0] == "fail"
        want = failed if limit is None else land(failed, fails <= limit)
        ctx.check(iff(got, want), "true iff the latest run failed and no more than n failures in a row")
    return run


def cases(tier):
    b = 60 if tier == "quick" else 600
    for cached in (True, False):
        c = "cached" if cached else "from log"
        for n in range(0, 4):
            yield Case(f"retry {n} records {c}", harness(n, cached, STATUS), budget=b)
        for act in ("success", "inaction", "terminate", "crash"):
            yield Case(f"retry 5 records run fail {act} {c}", harness(5, cached, ("fail", "run", act)), budget=b)
            if tier != "quick":
                yield Case(f"retry 7 records run fail {act} {c}", harness(7, cached, ("fail", "run", act)), budget=b)
        # long rows of failures (after a success)
        yield Case(f"retry 12 failures {c}", harness(12, cached, ("fail",), most=1000), budget=b)
        yield Case(f"retry 3 records any limit {c}", harness(3, cached, ("fail", "success"), most=10 ** 6), budget=b)
        yield Case(f"retry dict records {c}", harness(3, cached, ("fail", "run", "success"), asdict=True), budget=b)
