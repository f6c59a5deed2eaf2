"""C17: the number of processes and the order of priority."""
from checks.schedlib import *

LEVEL = "model_checking"
BOUNDS = ("1-4 tasks of processes, mixed with threads and async ones; at most 1-3 processes; any integer priorities of a million up or down; 1-5 cycles (2-6 "
          "thorough) with any states of the start conditions, forced runs and any running executions ended between; parallel runs allowed or not; "
          "processes of startup tasks going on, other attributes set, the limit raised between cycles")
OUTSIDE = "more tasks and processes, longer histories; the order of equal priorities is not specified"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]


def harness(execs, cap, cycles, multi=False, forced=False, waits=True, own=None):
    def run(ctx):
        async def main(sim):
            prio = [ctx.int(f"p{i}", -10**6, 10**6) for i in range(len(execs))]
            tasks = []
            for i, e in enumerate(execs):
                t = sim.job_task(f"t{i}", e, start_cond=Flag(False), waits=waits)
                t.__dict__["priority"] = prio[i]
                if own is not None:
                    t.multilaunch = own
                tasks.append(t)
            allow = multi if own is None else own
            seen, pending = 0, False
            await sim.startup()
            for c in range(cycles):
                if c:
                    for j in sim.alive():
                        if ctx.flag(f"end{c}.{j.name}.{j.n}"):
                            j.finish("success")
                    await sim.turns()
                    sim.later(ctx, "now")
                before = {t.name: len(sim.alive(t.name)) for t in tasks}
                procs = sim.n_processes()
                conds = []
                for i, t in enumerate(tasks):
                    t.start_cond.value = ctx.bool(f"c{c}.{i}")
                    conds.append(t.start_cond.value)
                if forced and c == 0 and ctx.flag("forced"):
                    tasks[0].run()
                    pending = True
                if pending:
                    conds[0] = True
                await sim.cycle()
                runs = [r.task_name for r in sim.records if r.action == "run"]
                started = [int(n[1:]) for n in runs[seen:]]
                seen = len(runs)
                pending = pending and 0 not in started
                ctx.check(len(set(started)) == len(started), "a cycle starts a task at most once")
                ctx.check(sim.max_alive <= cap, "never more processes than allowed", sim.max_alive)
                for a, b in zip(started, started[1:]):
                    ctx.check(prio[a] >= prio[b], "tasks are started in the order of priority")
                full = waits and sim.n_processes() >= cap
                for i, t in enumerate(tasks):
                    may = before[t.name] == 0 or allow or execs[i] == "main"
                    if i in started:
                        ctx.check(land(conds[i], may), "only what is to be run is started")
                        continue
                    if not may:
                        continue
                    if execs[i] == "process" and full:
                        # left out as there was no room: those started as processes are not less important
                        ctx.check(implies(conds[i], land(*[prio[k] >= prio[i] for k in started if execs[k] == "process"])),
                                  "a task is left without a process only for more important ones")
                    else:
                        ctx.check(lnot(conds[i]), "a task that is to be run is started if there is room")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), max_process_count=cap, timeout=datetime.timedelta(days=900), multilaunch=multi)
    return run


def phases(n_start, n_normal, cap, cycles):
    """processes of startup tasks count too; any other attributes"""
    def run(ctx):
        async def main(sim):
            kw = ctx.choice("with", [{}, dict(permanent=True), dict(daemon=False), dict(name="x")])
            caps = [cap] + [ctx.choice("cap later", [cap, cap + 1]) for _ in range(1)] * (cycles - 1)
            for i in range(n_start):
                sim.job_task(f"s{i}", "process", on_startup=True, **{k: v for k, v in kw.items() if k != "name"})
            tasks = [sim.job_task(f"n{i}" + kw.get("name", ""), "process", start_cond=Flag(False), **{k: v for k, v in kw.items() if k != "name"})
                     for i in range(n_normal)]
            sim.job_task("down", "process", on_shutdown=True)
            await sim.startup()
            ctx.check(sim.max_alive <= cap, "never more processes than allowed at startup", sim.max_alive)
            ctx.check(len(sim.alive()) == min(cap, n_start), "startup tasks start as there is room", len(sim.alive()))
            for c in range(cycles):
                sim.session.config.max_process_count = caps[c]
                for j in sim.alive():
                    how = ctx.choice(f"end{c}.{j.name}.{j.n}", ["keep", "success", "fail"])
                    if how != "keep":
                        j.finish(how)
                await sim.turns()
                before = {t.name: len(sim.alive(t.name)) for t in tasks}
                n = sim.n_processes()
                seen = len(sim.jobs)
                for i, t in enumerate(tasks):
                    t.start_cond.value = ctx.bool(f"c{c}.{i}")
                await sim.cycle()
                new = [j.name for j in sim.jobs[seen:]]
                due = [land(before[t.name] == 0, t.start_cond.value) for t in tasks]
                k = count(due)
                room = max(caps[c] - n, 0)
                ctx.check(len(new) == ite(k < room, k, room), "as many processes are started as there is room for, and no more")
                for t, d in zip(tasks, due):
                    ctx.check(implies(t.name in new, d), "only what is to be run is started")
                ctx.check(len(set(new)) == len(new) and set(new) <= set(before), "a cycle starts tasks of the cycle once")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), max_process_count=cap, timeout=datetime.timedelta(days=900))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 500
    q = tier == "quick"
    P, T, A, M = "process", "thread", "async", "main"
    for cap in (1, 2):
        yield Case(f"two processes, {cap} allowed", harness([P, P], cap, 3 if q else 4, forced=True), budget=b)
    yield Case("two processes, 1 allowed, parallel", harness([P, P], 1, 2 if q else 3, multi=True), budget=b)
    yield Case("one process, 2 allowed, parallel", harness([P], 2, 4 if q else 5, own=True), budget=b)
    yield Case("one process, 3 allowed, parallel", harness([P], 3, 5 if q else 6, own=True), budget=b)
    yield Case("two processes, 2 allowed, parallel", harness([P, P], 2, 2 if q else 3, own=True), budget=b)
    yield Case("process that ends at once", harness([P, P], 1, 2 if q else 3, waits=False), budget=b)
    for e in (T, A, M):
        yield Case(f"process and {e}", harness([P, e, P], 1, 2 if q else 3), budget=b)
    yield Case("three processes, 2 allowed", harness([P, P, P], 2, 2 if q else 3), budget=b)
    yield Case("threads in order", harness([T, A, M], 1, 1), budget=b)
    yield Case("four processes, 2 allowed", harness([P, P, P, P], 2, 1), budget=b)
    for ns, nn, cap in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (1, 2, 2)):
        yield Case(f"{ns} startup and {nn} others, {cap} allowed", phases(ns, nn, cap, 2), budget=b)
