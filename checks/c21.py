"""C21: how the scheduler shuts down."""
from checks.schedlib import *
from rocketry.exc import TaskLoggingError

LEVEL = "model_checking"
BOUNDS = ("1-3 running tasks (async, thread that listens or not, process; normal or permanent) and a task that becomes due at the shutdown; asked to shut down "
          "once, twice (at once or while it waits) or by force, by the shut condition, by a fatal error (of a condition, of the log, an exit or an interrupt), by a restart; the runs end by themselves in any of 4 "
          "rounds (6 thorough) in any way, at any microseconds; immediate shutdown configured or not; also a second session after a forced shutdown")
OUTSIDE = "more tasks; processes that refuse to die; restarts that replace the operating system process"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]


FATAL = ("fatal", "interrupt", "system exit", "exit", "log")


async def until_done(sim, task, limit=120):
    for _ in range(limit):
        if task.done():
            break
        await asyncio.sleep(0)
        _r()
    else:
        raise Stuck("the scheduler does not stop though nothing runs")


def _r():
    c = engine.CTX
    if c is not None and c.abort is not None:
        raise c.abort


def trigger(ctx, sim, how, bad=None):
    ses = sim.session
    if how == "shut_down":
        ses.shut_down()
    elif how == "force":
        ses.shut_down(force=True)
    elif how == "twice":
        ses.shut_down()
        ses.shut_down()
    elif how == "shut_cond":
        ses.config.shut_cond.value = True
    elif how == "fatal":
        bad.start_cond.value = Boom("fatal")
    elif how == "interrupt":
        bad.start_cond.value = KeyboardInterrupt()
    elif how == "system exit":
        bad.start_cond.value = SystemExit()
    elif how == "exit":
        bad.start_cond.value = True
        sim.instant["bad"] = "exit"
    elif how == "log":
        bad.start_cond.value = True
        sim.fail_log(lambda r: r.task_name == "bad" and r.action == "run")
    elif how == "later twice":
        ses.shut_down()
    else:
        raise ValueError(how)


def harness(execs, hows, rounds, instant=False, permanent=False, listens=True, again=False, daemonic=False):
    def run(ctx):
        how = ctx.choice("how", hows)

        async def main(sim):
            extra = {}
            if len(execs) == 1:
                kind = ctx.choice("kind", ["usual", "of the startup", "disabled"])
                if kind != "usual":
                    extra["on_startup" if kind == "of the startup" else "disabled"] = True
            if daemonic and ctx.flag("daemon"):
                extra["daemon"] = True
            tasks = [sim.job_task(f"t{i}", e, start_cond=Flag(False), permanent=permanent and i == 0, priority=-3 if len(execs) > 2 and i == 0 else 0, **extra) for i, e in enumerate(execs)]
            late = sim.job_task("late", "main", start_cond=Flag(False), priority=-1)
            bad = sim.job_task("bad", "main", start_cond=Flag(False), priority=-2)
            sim.session.config.shut_cond = Flag(False)
            for t in tasks:
                t.run()
            if again:
                # an earlier session that was ended by force
                tasks2 = [t.batches.pop() for t in tasks]
                st = asyncio.ensure_future(sim.session.serve())
                for _ in range(3):
                    await asyncio.sleep(0)
                sim.session.shut_down(force=True)
                await until_done(sim, st)
                for t in tasks:
                    t.run()
            st = asyncio.ensure_future(sim.session.serve())
            for _ in range(40):
                await asyncio.sleep(0)
                _r()
                if len(sim.jobs) == len(execs):
                    break
            ctx.check(len(sim.jobs) == len(execs), "the tasks are running")
            sim.later(ctx, "now")
            late.start_cond.value = True
            trigger(ctx, sim, how, bad)
            killed = instant or how in ("force", "twice") + FATAL
            mine = {}
            told = set()
            for k in range(rounds):
                await sim.turns(4)
                if k == 1 and how == "later twice":
                    sim.session.shut_down()
                    killed = True
                    await sim.turns(4)
                if not killed or k == 0:
                    for j in sim.alive():
                        if not (permanent and j.name == "t0"):
                            ctx.check(killed or not (j.execution == "thread" and j.flag.is_set()), "a run is let to end by itself")
                for j in sim.alive():
                    if j.execution == "thread" and j.flag.is_set():
                        told.add(j)
                        if listens:
                            j.finish("terminate")
                            mine[j] = "terminate"
                            continue
                    if ctx.flag(f"end{k}.{j.name}"):
                        mine[j] = ctx.choice(f"how{k}.{j.name}", ["success", "fail"])
                        j.finish(mine[j])
            sim.later(ctx, "now")
            await sim.turns(4)
            left = sim.alive()
            for j in left:
                if permanent and j.name == "t0":
                    ctx.check(j.execution == "thread", "a permanent task is terminated at a shutdown")
                if j.execution == "thread" and j.flag.is_set():
                    told.add(j)
                elif killed:
                    ctx.fail("a running task is terminated at an immediate shutdown", j.name)
                ctx.check(not st.done(), "the scheduler does not stop while something runs")
                mine[j] = "success"
                j.finish("success")
            await until_done(sim, st)
            exc = st.exception()
            if how in ("fatal", "log"):
                ctx.check(isinstance(exc, Boom if how == "fatal" else TaskLoggingError), "a fatal error is raised", repr(exc))
            else:
                ctx.check(exc is None, "a shutdown raises nothing", repr(exc))
            ctx.check(not sim.alive() and not sim.session.scheduler.n_alive, "nothing runs after a shutdown")
            ctx.check(sim.session.scheduler.is_alive is False, "the scheduler tells it is not running")
            ctx.check(not sim.of("late") or how in FATAL + ("shut_cond",), "nothing is started at a shutdown")
            for i, e in enumerate(execs):
                j = [x for x in sim.jobs if x.name == f"t{i}"][-1]
                acts = [r.action for r in sim.of(f"t{i}")]
                want = "terminate" if j.how == "cancelled" else mine.get(j, "terminate")
                ctx.check(acts == ["run", want], "each run has one end in the log, the one it had", f"{acts} {want}")
                if not killed and not (permanent and i == 0):
                    ctx.check(want != "terminate", "a run is let to end by itself")
                if killed and e == "thread" and j not in told:
                    ctx.check(j in mine, "a thread is told to terminate")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900), instant_shutdown=instant)
    return run


def overtime(execution):
    """waiting ends at the timeout or the end condition of a task"""
    def run(ctx):
        async def main(sim):
            t = sim.job_task("t", execution, start_cond=Flag(False), end_cond=Flag(False))
            limit = ctx.td("limit", 1, 2 * 86400 * US)
            t.__dict__["timeout"] = limit
            t.run()
            began = sim.now
            st = asyncio.ensure_future(sim.session.serve())
            for _ in range(40):
                await asyncio.sleep(0)
                _r()
                if sim.jobs:
                    break
            sim.session.shut_down()
            await sim.turns(4)
            ctx.check(sim.alive(), "a run is let to end by itself")
            sim.later(ctx, "now")
            cond = ctx.flag("end condition")
            t.end_cond.value = cond
            await sim.turns(6)
            j = sim.jobs[0]
            gone = j.flag.is_set() if execution == "thread" else not j.alive
            ctx.check(iff(gone, lor(cond, sim.now - began > limit.total_seconds())), "a run is terminated at a shutdown iff it is over its time or its end condition is true")
            if j.alive:
                j.finish("terminate" if gone else "success")
            await until_done(sim, st)
            ctx.check([r.action for r in sim.of("t")] == ["run", "terminate" if gone else "success"], "each run has one end in the log, the one it had")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))
    return run


def restart(execution, rounds):
    """a restart waits for the tasks and then goes on"""
    def run(ctx):
        async def main(sim):
            t = sim.job_task("t", execution, start_cond=Flag(False))
            t.run()
            st = asyncio.ensure_future(sim.session.serve())
            for _ in range(40):
                await asyncio.sleep(0)
                _r()
                if sim.jobs:
                    break
            if ctx.flag("by a task"):
                c = sim.job_task("caller", "main", start_cond=Flag(True))
                sim.instant["caller"] = lambda j: "restart" if j.n == 0 else "success"
                await sim.turns(2)
                c.start_cond.value = False
            else:
                sim.session.restart()
            for k in range(rounds):
                await sim.turns(3)
                for j in sim.alive("t"):
                    if ctx.flag(f"end{k}"):
                        j.finish("success")
            for j in sim.alive("t"):
                j.finish("success")
            await sim.turns(8)
            ctx.check(not st.done(), "the scheduler goes on after a restart")
            ctx.check([r.action for r in sim.of("t")] == ["run", "success"], "a run is let to end by itself before a restart")
            t.run()
            await sim.turns(4)
            ctx.check(len(sim.alive("t")) == 1, "tasks are started after a restart")
            sim.alive("t")[0].finish("success")
            sim.session.shut_down()
            await until_done(sim, st)
            ctx.check(st.exception() is None, "a shutdown raises nothing", repr(st.exception()))
            ctx.check([r.action for r in sim.of("t")] == ["run", "success"] * 2, "each run has one end in the log, the one it had")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), restarting="recall")
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    R = 4 if tier == "quick" else 6
    ALL = ["shut_down", "force", "twice", "shut_cond", "fatal", "later twice"]
    for e in ("async", "thread", "process"):
        yield Case(f"one {e}", harness([e], ALL, R), budget=b)
        yield Case(f"fatal {e}", harness([e], FATAL, 2, daemonic=True), budget=b)
        yield Case(f"one {e} instant", harness([e], ["shut_down", "shut_cond"], R, instant=True), budget=b)
        yield Case(f"permanent {e}", harness([e], ALL + ["exit"], R, permanent=True), budget=b)
        yield Case(f"overtime {e}", overtime(e), budget=b)
        yield Case(f"restart {e}", restart(e, R), budget=b)
        yield Case(f"after a forced one {e}", harness([e], ["shut_down"], R, again=True), budget=b)
    yield Case("deaf thread", harness(["thread"], ALL, R, listens=False), budget=b)
    for e1, e2 in (("async", "process"), ("thread", "async"), ("process", "thread")):
        yield Case(f"{e1} and {e2}", harness([e1, e2], ["shut_down", "force", "later twice"], 3 if tier == "quick" else 4), budget=b, weight=2)
        yield Case(f"{e1}, {e2} and {e1}", harness([e1, e2, e1], ["shut_down", "force"], 2), budget=b)
        yield Case(f"permanent {e1}, {e2} and {e2}", harness([e1, e2, e2], ["shut_down", "force"], 2, permanent=True), budget=b)
        yield Case(f"permanent {e1} and {e2}", harness([e1, e2], ["shut_down", "force"], 3, permanent=True), budget=b)
