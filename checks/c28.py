"""C28: tasks of the startup and the shutdown, and running chosen tasks by hand."""
from checks.schedlib import *

LEVEL = "model_checking"
BOUNDS = ("2-3 tasks of the startup, shutdown, both or neither, of any execution types, with any priorities of -1...1, any states of their start conditions (or "
          "none given), disabled or not, failing or not; 0-2 cycles; 1-2 sessions in a row; running by hand any subset of 3 tasks with or without their conditions, "
          "with or without another execution, tasks of the startup and shutdown and pending ones among them, also when a task fails or makes new tasks")
OUTSIDE = "more tasks; pending runs of the very tasks that are run by hand; more sessions; the order of equal priorities is not specified"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]


class Stop(BaseCondition):
    def __init__(self, cycles):
        self.cycles, self.n = cycles, 0

    def get_state(self):
        self.n += 1
        return self.n > self.cycles


def sequence(execs, roles, sessions=1, failing=False, conds=(None, True, False, "disabled")):
    def run(ctx):
        async def main(sim):
            ses = sim.session
            tasks, want, prio = {}, {}, {}
            for i, e in enumerate(execs):
                n = f"t{i}"
                role = ctx.choice(f"role{i}", roles)
                cond = ctx.choice(f"cond{i}", list(conds))
                disabled = cond == "disabled"
                if disabled:
                    cond = [None, True][i % 2]
                prio[n] = ctx.int(f"p{i}", -1, 1)
                kw = {} if cond is None else dict(start_cond=Flag(cond))
                t = sim.job_task(n, e, waits=False, disabled=disabled, on_startup=role in ("up", "both"), on_shutdown=role in ("down", "both"), **kw)
                t.__dict__["priority"] = prio[n]
                sim.instant[n] = ctx.choice(f"how{i}", ["success", "fail"]) if failing else "success"
                due = not disabled and cond is not False
                tasks[n] = (role, due, cond)
            # a run that has had no turn yet is alive and not run again
            cycles = ctx.choice("cycles", [1, 2] if "both" in roles and "async" in execs else [0, 1])
            for s in range(sessions):
                del sim.jobs[:]
                runs = []
                ses.config.shut_cond = Stop(cycles)
                k = len(sim.records)
                await ses.scheduler.serve()
                _ = [r for r in sim.records[k:] if r.action == "run"]
                got = [r.task_name for r in _]
                up = [n for n, (role, due, c) in tasks.items() if due and role in ("up", "both")]
                down = [n for n, (role, due, c) in tasks.items() if due and role in ("down", "both")]
                mid = [n for n, (role, due, c) in tasks.items() if due and role == "no" and c] * cycles
                ctx.check(len(got) == len(up) + len(mid) + len(down), "each task is run as often as it should", f"{got} {up} {mid} {down}")
                a, b, c = got[:len(up)], got[len(up):len(up) + len(mid)], got[len(up) + len(mid):]
                ctx.check(sorted(a) == sorted(up), "startup tasks are run once and first", f"{got} {up}")
                ctx.check(sorted(c) == sorted(down), "shutdown tasks are run once and last", f"{got} {down}")
                ctx.check(sorted(b) == sorted(mid), "other tasks are run in the cycles", f"{got} {mid}")
                for part in (a, c):
                    for x, y in zip(part, part[1:]):
                        ctx.check(prio[x] >= prio[y], "they are run in the order of priority")
                ends = [r.action for r in sim.records[k:] if r.action != "run"]
                ctx.check(len(ends) == len(got), "the scheduler ends after they have ended", repr(ends))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def fatal(execution):
    """shutdown tasks are run also after a fatal error, a restart or an exit"""
    def run(ctx):
        async def main(sim):
            ses = sim.session
            # other ends than a restart terminate what is running, an async task possibly before its first turn
            where = ctx.choice("where", ["restart"] if execution == "async" else ["cycle", "startup", "exit", "restart"])
            sim.job_task("d", execution, waits=False, on_shutdown=True)
            sim.job_task("u", "main", waits=False, on_startup=True)
            bad = sim.job_task("b", "main", waits=False, start_cond=Flag(Boom("fatal") if where in ("cycle", "startup") else True), on_startup=where == "startup",
                               priority=-1)
            sim.instant["b"] = where
            ses.config.__dict__["restarting"] = "recall"
            n = dict(serve=0)
            real = ses.scheduler.serve

            async def again():
                n["serve"] += 1
            if where == "restart":
                ses.scheduler.serve = again
            try:
                await real()
                err = None
            except Boom as exc:
                err = exc
            ctx.check((err is not None) == (where in ("cycle", "startup")), "a fatal error is raised, an exit is not")
            got = [j.name for j in sim.jobs]
            want = ["u"] + (["b"] if where in ("exit", "restart") else []) + ["d"]
            ctx.check(got == want, "shutdown tasks are run once, however the scheduler ends", repr(got))
            ctx.check(sim.of("d")[-1].action == "success", "the shutdown task is finished")
            ctx.check(n["serve"] == (1 if where == "restart" else 0), "it is restarted iff asked to")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def by_hand(execs, makes=False, varied=False, pendings=False):
    def run(ctx):
        async def main(sim):
            ses = sim.session
            orig = {}
            cond, pend = {}, {}
            for i, e in enumerate(execs):
                n = f"t{i}"
                cond[n] = ctx.flag(f"cond{i}")
                dis = ctx.flag(f"disabled{i}")
                role = ctx.choice(f"role{i}", ["no", "up", "down"]) if varied and i == 0 else "no"
                kw = dict(start_cond=Flag(cond[n]))
                if varied and cond[n] and role != "no" and ctx.flag(f"no condition{i}"):
                    # such are always run
                    kw = {}
                t = sim.job_task(n, e, waits=False, disabled=dis, on_startup=role == "up", on_shutdown=role == "down", **kw)
                sim.instant[n] = ctx.choice(f"how{i}", ["success", "fail"]) if i == 0 and not varied else "success"
                orig[n] = dict(execution=e, disabled=dis)
                pend[n] = 0
                if pendings and i and ctx.flag(f"pending{i}"):
                    t.run()
                    pend[n] = 1
            if makes:
                def make(j):
                    ses.create_task(func=lambda: None, name="new", execution="main")
                    return "success"
                sim.instant["t0"] = make
            pick = ctx.choice("pick", [("t0",), ("t0", "t1"), ("t1",)] + ([] if makes else [()]))
            obey = ctx.flag("obey conditions")
            ex = ctx.choice("execution", [None, "main"] + (["thread"] if varied else []))
            if pendings:
                # a pending run of a task that is run by hand is nothing that is promised of
                ctx.assume(not any(pend[n] for n in pick))
            as_tasks = pendings and ctx.flag("given as tasks")
            stop = Flag(False)
            ses.config.shut_cond = stop
            stop = ses.config.shut_cond
            err = by_itself(lambda: ses.run(*(map(ses.__getitem__, pick) if as_tasks else pick), execution=ex, obey_cond=obey))
            ctx.check(err is None, "running by hand raises nothing", repr(err))
            got = sorted(j.name for j in sim.jobs)
            want = sorted(n for n in pick if (cond[n] and not orig[n]["disabled"] if obey else True))
            ctx.check(got == want, "exactly the given tasks are run, once", f"{got} {want}")
            for j in sim.jobs:
                as_ = "here" if j.co is None else "process" if hasattr(j.co, "process") else "thread"
                want = ex or orig[j.name]["execution"]
                ctx.check(as_ == ("here" if want in ("main", "async") else want), "they are run by the given execution, else by their own", f"{j.name} {as_}")
            for n, o in orig.items():
                t = ses[n]
                ctx.check(t.execution == o["execution"] and t.disabled == o["disabled"], "the tasks are afterwards as they were")
                ctx.check(len(t.batches) == pend[n], "a pending run is left pending, no other is")
                if n in got:
                    ctx.check(t.get_status() in ("success", "fail") and t.get_status() == sim.of(n)[-1].action, "the status of a run task is known")
            ctx.check(ses.config.shut_cond is stop or ses.config.shut_cond == stop, "the shut condition is afterwards as it was")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def by_itself(call):
    """a call that makes an event loop of its own"""
    loop = asyncio.events._get_running_loop()
    asyncio.events._set_running_loop(None)
    try:
        call()
    except Exception as exc:
        return exc
    finally:
        asyncio.events._set_running_loop(loop)
    return None


def cases(tier):
    q = tier == "quick"
    b = 60 if q else 600
    for e in ("main", "async", "thread", "process"):
        yield Case(f"sequence {e}", sequence([e, e], ("up", "down", "both", "no")), budget=b, weight=2)
        yield Case(f"sessions in a row {e}", sequence([e], ("up", "down", "both", "no"), sessions=2, failing=True), budget=b)
        yield Case(f"however ended {e}", fatal(e), budget=b)
        yield Case(f"by hand {e}", by_hand([e, "main"]), budget=b, weight=2)
    yield Case("three tasks", sequence(["main", "async", "thread"], ("up", "down"), conds=(None, False) if q else (None, True, False, "disabled")), budget=b, weight=3)
    yield Case("failing", sequence(["main", "thread"], ("up", "down"), failing=True), budget=b)
    yield Case("by hand, three", by_hand(["async", "main", "process"]), budget=b, weight=2)
    for e in ("main", "async", "thread", "process"):
        yield Case(f"by hand, any tasks {e}", by_hand([e, "main"], varied=True), budget=b, weight=2)
        yield Case(f"by hand, pending {e}", by_hand(["main", e], pendings=True), budget=b, weight=2)
    yield Case("by hand, new tasks", by_hand(["main", "async"], makes=True), budget=b)
