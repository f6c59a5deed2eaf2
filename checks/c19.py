"""C19: when a running task is terminated."""
from checks.schedlib import *

LEVEL = "model_checking"
BOUNDS = ("1-4 runs of a task in parallel (async, process, thread that listens or does not), any timeout of 1 microsecond to 3 days (of the task or of the "
          "configuration), any start times, 1-3 cycles (up to 5 thorough) at any microseconds of 3 days, in each any state of the end condition, any request to terminate; "
          "runs that end by themselves before or at the cycle")
OUTSIDE = "more runs; processes that refuse to die; a zero timeout"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness",
               "floats on the microsecond grid are exact (timestamps)"]


def harness(execution, nruns, cycles, source, listens=True, triggers=True, permanent=False, enders=True):
    def run(ctx):
        limit = ctx.td("timeout", 1, 3 * 86400 * US) if source != "long" else datetime.timedelta(days=900)
        conf = {}
        if source != "config":
            conf["timeout"] = datetime.timedelta(days=900) if source in ("task", "long") else datetime.timedelta(seconds=1)

        async def main(sim):
            task = sim.job_task("t", execution, start_cond=Flag(False), end_cond=Flag(False), multilaunch=True, permanent=permanent)
            if source == "config":
                sim.session.config.__dict__["timeout"] = limit
            else:
                task.__dict__["timeout"] = limit
            end = task.end_cond
            if nruns == 1:
                # (forced runs are run all the same)
                task.disabled = ctx.flag("disabled")
            await sim.startup()
            began = {}
            limit_s = limit.total_seconds()
            for i in range(nruns):
                if i:
                    sim.later(ctx, "now")
                task.run()
                # a run is not looked at in its first cycle's termination check unless it already lasts too long
                before = list(sim.jobs)
                alive0 = sim.alive()
                await sim.cycle()
                for j in sim.jobs:
                    if j not in before:
                        began[j] = sim.now
                verify(ctx, sim, task, alive0, began, limit_s, False, False, permanent, execution, listens)
                if execution == "thread":
                    settle(ctx, sim, listens)
                    await sim.turns()
            for c in range(cycles):
                sim.later(ctx, "now")
                if enders:
                    for j in sim.alive():
                        if ctx.flag(f"end{c}.{j.n}"):
                            j.finish("success")
                            j.byself = True
                    await sim.turns()
                end.value = ctx.flag(f"cond{c}") if triggers else False
                force = ctx.flag(f"force{c}") if triggers else False
                if force:
                    task.terminate()
                alive = sim.alive()
                n = len(sim.jobs)
                await sim.cycle()
                ctx.check(len(sim.jobs) == n, "a termination starts nothing")
                verify(ctx, sim, task, alive, began, limit_s, end.value, force, permanent, execution, listens)
                if execution == "thread":
                    settle(ctx, sim, listens)
                    await sim.turns()
            end.value = False
            task.__dict__["timeout"] = datetime.timedelta(days=900)
            sim.session.config.__dict__["timeout"] = datetime.timedelta(days=900)
            left = sim.alive()
            for j in left:
                if not getattr(j, "told", False):
                    j.finish("success")
                    j.byself = True
            await sim.turns()
            await sim.cycle()
            # the log
            for j in sim.jobs:
                recs = [r for r in sim.records if r.run_id == f"t#{j.n + 1}"]
                want = "success" if getattr(j, "byself", False) else "terminate"
                if j.alive:
                    ctx.check([r.action for r in recs] == ["run"], "a run that goes on has no end in the log", repr(recs))
                else:
                    ctx.check([r.action for r in recs] == ["run", want], "a terminated run is recorded once, as terminated", repr(recs))
            ctx.check(not task.force_termination or not left, "a request to terminate is for the present runs only")
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), **conf)
    return run


def verify(ctx, sim, task, alive, began, limit, cond, force, permanent, execution, listens):
    for j in alive:
        late = False if permanent else sim.now - began[j] > limit
        want = True if (cond or force) else late
        if execution == "thread":
            told = j.flag.is_set()
            if getattr(j, "told", False):
                continue
            ctx.check(iff(told, want), "a run is told to terminate iff it is over its time, its end condition is true or it is so asked")
            j.told = told
        else:
            gone = not j.alive
            ctx.check(iff(gone, want), "a run is terminated iff it is over its time, its end condition is true or it is so asked")


def settle(ctx, sim, listens):
    """threads that were told to end do so"""
    for j in sim.alive():
        if j.flag.is_set():
            if listens:
                j.finish("terminate")


def quick_process(ctx):
    """a process that has ended by the time of its check is not terminated"""
    async def main(sim):
        execution = ctx.choice("execution", ["process", "thread"])
        task = sim.job_task("t", execution, waits=False, start_cond=Flag(True), end_cond=Flag(True))
        how = ctx.choice("how", ["success", "fail", "inaction"])
        sim.instant["t"] = how
        if ctx.flag("force"):
            task.terminate()
        await sim.cycle()
        task.start_cond.value = False
        sim.later(ctx, "now")
        await sim.cycle()
        recs = sim.of("t")
        ctx.check([r.action for r in recs] == ["run", how], "a run that ended by itself is recorded as it ended", repr(recs))
    simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))


def others(execution):
    """terminating one task leaves the others alone"""
    def run(ctx):
        async def main(sim):
            a = sim.job_task("a", execution, start_cond=Flag(True), end_cond=Flag(False))
            b = sim.job_task("b", execution, start_cond=Flag(True), end_cond=Flag(False))
            await sim.cycle()
            a.start_cond.value = b.start_cond.value = False
            sim.later(ctx, "now")
            which = ctx.choice("which", ["a", "b"])
            t = sim.session[which]
            if ctx.flag("how"):
                t.terminate()
            else:
                t.end_cond.value = True
            await sim.cycle()
            for j in sim.jobs:
                told = j.flag.is_set() if execution == "thread" else not j.alive
                ctx.check(told == (j.name == which), "only the runs of the task are terminated")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    q = tier == "quick"
    for e in ("async", "process", "thread"):
        yield Case(f"timeout of task {e}", harness(e, 1, 3 if q else 5, "task"), budget=b)
        yield Case(f"timeout of config {e}", harness(e, 1, 2 if q else 4, "config", triggers=False), budget=b)
        yield Case(f"timeout shorter in config {e}", harness(e, 1, 1, "both", triggers=False), budget=b)
        yield Case(f"two runs {e}", harness(e, 2, 2 if q else 3, "task"), budget=b, weight=3)
        yield Case(f"two runs by time {e}", harness(e, 2, 2 if q else 4, "task", triggers=False, enders=False), budget=b, weight=3)
        yield Case(f"four runs by time {e}", harness(e, 4, 1 if q else 2, "task", triggers=False, enders=False), budget=b, weight=3)
        yield Case(f"four runs {e}", harness(e, 4, 1 if q else 2, "long"), budget=b)
        yield Case(f"permanent {e}", harness(e, 1, 2, "task", permanent=True), budget=b)
        yield Case(f"others {e}", others(e), budget=b)
    yield Case("thread that does not listen", harness("thread", 1, 2, "task", listens=False), budget=b)
    yield Case("ended by itself", quick_process, budget=b)
