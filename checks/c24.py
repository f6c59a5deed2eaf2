"""C24: return values handed from task to task."""
from checks.schedlib import *
from rocketry.args import Return

LEVEL = "model_checking"
BOUNDS = ("1-2 tasks whose values are used and 1 that uses them, each of any execution type; 2-3 runs of the producers (4 thorough), also in parallel, that end "
          "in any order with any end and any integer value or none, the user run between any of them; processes that end while another process is being started")
OUTSIDE = "more producers and runs; values that cannot be pickled to or from a process"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
ENDS = ("success", "fail", "inaction", "terminate")


def same(a, b):
    return a is b if a is None or b is None else a == b


def at_once(prod, user):
    """producers that return before the next task is started; a value may be none"""
    def run(ctx):
        async def main(sim):
            state = {}

            def make():
                if state["end"] == "fail":
                    raise Boom("producer")
                if state["end"] == "inaction":
                    raise TaskInactionException()
                return state["v"]
            t = sim.task("a", make, execution=prod, start_cond=Flag(False))
            d = ctx.int("default", -1000, 1000)
            with_default = ctx.flag("a default")
            args = dict(x=Return("a", default=d) if with_default else Return("a"))
            use = sim.job_task("use", user, waits=False, params=list(args), parameters=args, start_cond=Flag(False), priority=-1)
            await sim.startup()
            known, latest = with_default, d
            for k in range(2):
                state["end"] = ctx.choice(f"end{k}", ("success", "fail", "inaction"))
                state["v"] = None if ctx.flag(f"none{k}") else ctx.int(f"v{k}", -1000, 1000)
                t.run()
                n = len(sim.jobs)
                together = ctx.flag(f"together{k}")
                if together and prod in ("main",):
                    use.run()
                await sim.cycle()
                await sim.turns()
                ctx.check(t.get_status() == state["end"], "the end of the producer", repr(sim.records))
                if state["end"] == "success":
                    known, latest = True, state["v"]
                if not (together and prod in ("main",)):
                    use.run()
                    await sim.cycle()
                new = [j for j in sim.jobs[n:] if j.name == "use"]
                ctx.check(len(new) == (1 if known else 0), "the user of the value is run; without value and default it is not")
                for j in new[:1]:
                    ctx.check(same(j.params["x"], latest), "a return argument is the latest value returned by that task")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), max_process_count=8, silence_task_prerun=True)
    return run


def chain(prod, user, runs, nprod=1, multi=False, default=True, ref="name", nones=False):
    def run(ctx):
        async def main(sim):
            names = [f"a{i}" for i in range(nprod)]
            tasks = [sim.job_task(n, prod, start_cond=Flag(False), multilaunch=multi, decorate=ref == 'func') for n in names]
            d = ctx.int("default", -1000, 1000)
            how = {"name": lambda t: t.name, "task": lambda t: t, "func": lambda t: t.func}[ref]
            args = {f"x{i}": Return(how(t), default=d) if default else Return(how(t)) for i, t in enumerate(tasks)}
            use = sim.job_task("use", user, waits=False, params=list(args), parameters=args, start_cond=Flag(False), priority=-1)
            latest = {}
            await sim.startup()

            async def look():
                n = len(sim.jobs)
                use.run()
                await sim.cycle()
                new = [j for j in sim.jobs[n:] if j.name == "use"]
                missing = not default and any(t.name not in latest for t in tasks)
                ctx.check(len(new) == (0 if missing else 1), "the user of the value is run; without value and default it is not")
                if missing:
                    ctx.check(use.get_status() == "fail", "without value and default the user fails")
                for j in new[:1]:
                    for i, t in enumerate(tasks):
                        ctx.check(same(j.params[f"x{i}"], latest.get(t.name, d)), "a return argument is the latest value returned by that task")
            if ctx.flag("look first"):
                await look()
            for k in range(runs):
                t = tasks[0] if nprod == 1 else ctx.choice(f"which{k}", tasks)
                mine = sim.alive(t.name)
                if mine and not multi:
                    pass
                else:
                    t.run()
                    await sim.cycle()
                pool = sim.alive()
                if multi and k < runs - 1 and ctx.flag(f"wait{k}"):
                    continue
                j = ctx.choice(f"who{k}", pool)
                end = ctx.choice(f"end{k}", ENDS)
                v = None if nones and ctx.flag(f"none{k}") else ctx.int(f"v{k}", -1000, 1000)
                j.finish(end, v)
                if end == "success":
                    latest[j.name] = v
                await sim.turns()
                if k == runs - 1 or ctx.flag(f"look{k}"):
                    await look()
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), max_process_count=8, silence_task_prerun=True)
    return run


def busy(n):
    """a process ends while another one is being started"""
    def run(ctx):
        async def main(sim):
            tasks = [sim.job_task(f"a{i}", "process", start_cond=Flag(False)) for i in range(n)]
            late = sim.job_task("late", "process", start_cond=Flag(False))
            args = {f"x{i}": Return(t.name, default=-5000) for i, t in enumerate(tasks)}
            use = sim.job_task("use", ctx.choice("user", ["main", "process"]), waits=False, params=list(args), parameters=args, start_cond=Flag(False))
            await sim.startup()
            for t in tasks:
                t.run()
            await sim.cycle()
            want = {}

            def meanwhile():
                for j in list(sim.alive()):
                    if j.name in args or j.name.startswith("a"):
                        end = ctx.choice(f"end.{j.name}", ENDS + ("keep",))
                        if end == "keep":
                            continue
                        v = ctx.int(f"v.{j.name}", -1000, 1000)
                        j.finish(end, v)
                        if end == "success":
                            want[j.name] = v
            sim.at_start = meanwhile
            late.run()
            await sim.cycle()
            use.run()
            await sim.cycle()
            got = [j for j in sim.jobs if j.name == "use"]
            ctx.check(len(got) == 1, "the user of the value is run")
            for j in got[:1]:
                for i, t in enumerate(tasks):
                    ctx.check(j.params[f"x{i}"] == want.get(t.name, -5000), "a return argument is the latest value returned by that task")
            for t in tasks:
                ctx.check((t.get_status() == "success") == (t.name in want), "the end of the run is known")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), max_process_count=8)
    return run


KINDS = ("main", "async", "thread", "process")


def cases(tier):
    b = 60 if tier == "quick" else 600
    q = tier == "quick"
    for p in KINDS:
        for u in KINDS:
            if p == "main":
                continue
            yield Case(f"{p} to {u}", chain(p, u, 2 if q else 4), budget=b, weight=2)
        for u in ("main", "thread", "process"):
            yield Case(f"at once {p} to {u}", at_once(p, u), budget=b)
        u = "main"
        if p != "main":
            yield Case(f"two producers {p}", chain(p, u, 2 if q else 3, nprod=2), budget=b, weight=3)
            yield Case(f"none returned {p}", chain(p, u, 2, nones=True), budget=b, weight=2)
            yield Case(f"parallel runs {p}", chain(p, u, 3 if q else 4, multi=True), budget=b, weight=3)
            yield Case(f"no default {p}", chain(p, "async", 2, default=False), budget=b)
            yield Case(f"no default {p} to process", chain(p, "process", 1, default=False), budget=b)
            yield Case(f"no default {p} to thread", chain(p, "thread", 1, default=False), budget=b)
            yield Case(f"by task {p}", chain(p, "async", 1, ref="task"), budget=b)
            yield Case(f"by function {p}", chain(p, "async", 1, ref="func"), budget=b)
    yield Case("ends during a start", busy(1), budget=b)
    yield Case("two end during a start", busy(2), budget=b, weight=2)
