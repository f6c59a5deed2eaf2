"""C12: after_success/fail/finish(A): A has so ended since the task last started."""
from checks.tasklib import *
from checks.c08 import D0, D1, LO
from rocketry.conditions.api import (after_success, after_fail, after_finish, after_all_success, after_all_fail, after_all_finish,
                                     after_any_success, after_any_fail, after_any_finish)
from rocketry.tasks import FuncTask
from rocketry.parse import parse_condition

LEVEL = "model_checking"
BOUNDS = ("per task 0-3 records of any actions (4 thorough) at any microsecond of 3 days, in order of time; 1-3 tasks depended on; every after_ form of "
          "the API and of the string syntax; the dependency given by name, task or function; statuses cached or read from the log")
OUTSIDE = "longer histories, more tasks, records out of order of time in the log"
ASSUMPTIONS = ["floats on the microsecond grid are exact (timestamps)"]
API = {("success", "all"): after_all_success, ("fail", "all"): after_all_fail, ("finish", "all"): after_all_finish,
       ("success", "any"): after_any_success, ("fail", "any"): after_any_fail, ("finish", "any"): after_any_finish}
ONE = dict(success=after_success, fail=after_fail, finish=after_finish)
WORD = dict(success="succeeded", fail="failed", finish="finished")
ACTS = dict(success=("success",), fail=("fail",), finish=("success", "fail"))


def decorated(env, name):
    FuncTask(session=env.session, name=name, execution="async")(lambda: None)
    return env.session[name]


def build(ctx, env, how, what, deps):
    names = [d.name for d in deps]
    if how == "one":
        d = deps[0]
        ref = ctx.choice("ref", ["name", "task", "func"])
        return ONE[what](dict(name=d.name, task=d, func=d.func)[ref])
    if how in ("all", "any"):
        return API[what, how](*names)
    quoted = "', '".join(names)
    if how == "string one":
        return parse_condition(f"after task '{names[0]}' {WORD[what]}" if what != "success" or ctx.flag("word") else f"after task '{names[0]}'",
                               session=env.session)
    if how == "string all":
        return parse_condition(f"after tasks '{quoted}' {WORD[what]}", session=env.session)
    if how == "string any":
        return parse_condition(f"after any tasks '{quoted}' {WORD[what]}", session=env.session)
    raise ValueError(how)


def harness(what, how, ndeps, n, nself, cached, few=False, own_acts=("run", "success")):
    def run(ctx):
        env = Env(ctx, force_status_from_logs=not cached)
        env.now = stamp(ctx, "now", D1, D1 + datetime.timedelta(days=1))
        task = env.task("t")
        deps = [decorated(env, f"dep {i}") for i in range(ndeps)]
        acts = ACTS[what]
        noise = tuple(a for a in STATUS if a not in acts)[:2 if few else None]
        own = history(ctx, env, task, nself, own_acts, LO, D1, name="own", memory=cached)
        hs = [history(ctx, env, d, n, acts + noise, LO, D1, name=f"d{i}", memory=cached) for i, d in enumerate(deps)]
        cond = build(ctx, env, how, what, deps)
        got = cond.observe(task=task, session=env.session)
        ctx.observe("got", got)
        starts = [t for a, t in own if a == "run"]
        each = []
        for h in hs:
            ends = [t for a, t in h if a in acts]
            # records are in order of time: the latest one is the last
            each.append(lor(*[land(*[e > s for s in starts]) if starts else True for e in ends]) if ends else False)
        want = lor(*each) if "any" in how else land(*each)
        ctx.check(iff(got, want), "true iff the depended tasks ended so after the latest start of the task")
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    N = 3 if tier == "quick" else 4
    for cached in (True, False):
        c = "cached" if cached else "from log"
        for what in ONE:
            yield Case(f"after {what} {c}", harness(what, "one", 1, N, 2, cached, few=True), budget=b)
            yield Case(f"after {what} any others {c}", harness(what, "one", 1, N - 1, 1, cached), budget=b)
            yield Case(f"string after {what} {c}", harness(what, "string one", 1, 1, 2, cached), budget=b)
            for q in ("all", "any"):
                if cached or tier != "quick":
                    yield Case(f"after {q} {what} {c}", harness(what, q, 2, 1, 2, cached), budget=b)
                    yield Case(f"string after {q} {what} {c}", harness(what, f"string {q}", 2, 1, 1, cached), budget=b)
            yield Case(f"after {what} any own records {c}", harness(what, "one", 1, 1, 2, cached, few=True, own_acts=STATUS), budget=b)
        for q in ("all", "any"):
            for what in ONE:
                yield Case(f"after {q} {what} of three {c}", harness(what, q, 3, 1, 1, cached, few=True), budget=b)
            yield Case(f"string after {q} success of three {c}", harness("success", f"string {q}", 3, 1, 1, cached, few=True), budget=b)
