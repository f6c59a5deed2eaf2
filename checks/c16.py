"""C16: what a cycle of the scheduler starts."""
from checks.schedlib import *

LEVEL = "model_checking"
BOUNDS = ("1-2 tasks of each execution type (main, async, thread, process); 2-3 cycles (4 thorough); in each cycle any state of the start condition, of "
          "the hold, of disabling, any of the running executions ended before it in any way, 0-2 forced runs each with its own parameter value (any integer), a termination pending; other attributes "
          "(permanent, priority, daemon, timeout, end condition, name) set or not")
OUTSIDE = "more tasks, longer histories, real operating system scheduling (threads and processes are stepped by the harness)"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness: an execution advances only between cycles or "
               "while it is being started"]
ENDS = ("success", "fail", "inaction")


class Model:
    """What should be started: reference in terms of the documentation"""
    def __init__(self, sim, task, execution, multi):
        self.sim, self.task, self.execution, self.multi = sim, task, execution, multi
        self.batches = []
        self.seen = 0

    def force(self, ctx, k):
        x = ctx.int(f"x{k}", 0, 99)
        if ctx.flag(f"how{k}"):
            self.task.run(x=x)
        else:
            self.task.run(dict(x=x))
        self.batches.append(x)

    def new(self):
        js = [j for j in self.sim.jobs if j.name == self.task.name]
        out, self.seen = js[self.seen:], len(js)
        return out

    def blocked(self):
        return bool(self.sim.alive(self.task.name)) and not self.multi and self.execution != "main"

    def expect(self, cond, disabled, hold, normal=True):
        if hold or not normal or self.blocked():
            return False
        if self.batches:
            return True
        return False if disabled else cond

    def verify(self, ctx, want, label=""):
        new = self.new()
        ctx.check(len(new) <= 1, "a cycle starts a task at most once", len(new))
        ctx.check(iff(len(new) == 1, want), "a cycle starts a task iff it is to be run and may run" + label)
        for j in new:
            x = self.batches.pop(0) if self.batches else -1
            ctx.check(j.params["x"] == x, "a forced run gets its own parameters, in order; another run gets none of them")


def end_some(ctx, sim, tag, ends=ENDS, only=None):
    for j in sim.alive():
        if only is None or j.name == only:
            how = ctx.choice(f"{tag}.{j.name}{j.n}", ("keep",) + tuple(ends))
            if how != "keep":
                j.finish(how)


def overlap(execution, cycles):
    """never two at once unless parallel runs are allowed"""
    def run(ctx):
        conf = ctx.flag("config multilaunch")
        own = ctx.choice("task multilaunch", [None, True, False])

        async def main(sim):
            flag = Flag(False)
            task = sim.job_task("t", execution, params=["x"], parameters=dict(x=-1), start_cond=flag)
            flag = task.start_cond
            task.multilaunch = own
            sim.instant["t"] = lambda j: ctx.choice(f"how{j.n}", ENDS)
            m = Model(sim, task, execution, conf if own is None else own)
            for c in range(cycles):
                if c:
                    sim.later(ctx, "now")
                    end_some(ctx, sim, f"c{c}", ends=("success", "fail") if c < 2 else ("success",))
                    await sim.turns()
                flag.value = ctx.bool(f"cond{c}")
                if c == 1 and ctx.flag("forced"):
                    m.force(ctx, "")
                want = m.expect(flag.value, False, False)
                await sim.cycle()
                m.verify(ctx, want)
                ctx.check(len(sim.alive("t")) <= 1 or m.multi, "never two executions at once unless parallel runs are allowed")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), multilaunch=conf)
    return run


def forced(execution, cycles):
    """forced runs, disabling, hold, startup and shutdown tasks"""
    def run(ctx):
        kind = ctx.choice("kind", ["normal", "on_startup", "on_shutdown"])

        async def main(sim):
            kw = {} if kind == "normal" else {kind: True}
            task = sim.job_task("t", execution, waits=False, params=["x"], parameters=dict(x=-1), start_cond=Flag(False), **kw)
            flag = task.start_cond
            m = Model(sim, task, execution, False)
            await sim.startup()
            for c in range(cycles):
                if c < 2:
                    for k in range(ctx.choice(f"n{c}", [0, 1, 2] if c == 0 else [0, 1])):
                        m.force(ctx, f"{c}{k}")
                flag.value = ctx.bool(f"cond{c}") if c < 2 else False
                disabled = ctx.flag(f"disabled{c}") if c < 2 else False
                hold = ctx.flag(f"hold{c}") if c < 2 else False
                task.disabled = disabled
                sim.session.scheduler.on_hold = hold
                want = m.expect(flag.value, disabled, hold, kind == "normal")
                await sim.cycle()
                m.verify(ctx, want)
            while m.batches and kind == "normal":
                n = len(m.batches)
                want = m.expect(False, False, False)
                await sim.cycle()
                m.verify(ctx, want)
                if len(m.batches) >= n:
                    break
            await sim.cycle()
            ctx.check(not m.new(), "a forced run is made exactly once")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))
    return run


ATTRS = [dict(permanent=True), dict(priority=-5), dict(daemon=True), dict(timeout=datetime.timedelta(days=9)), dict(description="it"),
         dict(end_cond=Flag(False)), dict(name="a task: of its own")]


def varied(execution, cycles):
    """whatever else is set of the task"""
    def run(ctx):
        kw = dict(ctx.choice("with", ATTRS))
        multi = ctx.choice("multilaunch", [None, True])
        others = 2 if "permanent" in kw or "name" in kw else 0

        async def main(sim):
            name = kw.pop("name", "t")
            task = sim.job_task(name, execution, params=["x"], parameters=dict(x=-1), start_cond=Flag(False), multilaunch=multi, **kw)
            for i in range(others):
                sim.job_task(f"o{i}", "async", waits=False, start_cond=Flag(True), permanent=i == 0)
            m = Model(sim, task, execution, bool(multi))
            for c in range(cycles):
                if c:
                    sim.later(ctx, "now")
                    for j in sim.alive(name):
                        how = ctx.choice(f"c{c}.{j.n}", ["keep", "success"] + (["terminate"] if execution in ("thread", "process") else []))
                        if how == "success":
                            j.finish(how)
                        elif how == "terminate":
                            task.terminate()
                    await sim.turns()
                if c == 1 and ctx.flag("force"):
                    m.force(ctx, "")
                task.start_cond.value = cond = ctx.bool(f"cond{c}")
                hold = sim.session.scheduler.on_hold = ctx.flag(f"hold{c}")
                task.disabled = ctx.flag(f"disabled{c}") if c == 1 else False
                want = m.expect(cond, task.disabled, hold)
                await sim.cycle()
                m.verify(ctx, want, " (varied)")
            ctx.check(len([j for j in sim.jobs if j.name.startswith("o")]) <= others * cycles, "others start at most once a cycle")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))
    return run


def pair(e1, e2, cycles):
    """two tasks do not disturb each other; one forces runs of the other"""
    def run(ctx):
        async def main(sim):
            a = sim.job_task("a", e1, params=["x"], parameters=dict(x=-1), start_cond=Flag(False), priority=1)
            b = sim.job_task("b", e2, params=["x"], parameters=dict(x=-1), start_cond=Flag(False))
            ma, mb = Model(sim, a, e1, False), Model(sim, b, e2, False)
            for c in range(cycles):
                if c:
                    end_some(ctx, sim, f"c{c}", ends=("success", "fail"))
                    await sim.turns()
                a.start_cond.value, b.start_cond.value = ctx.bool(f"a{c}"), ctx.bool(f"b{c}")
                if c == 0 and ctx.flag("force b"):
                    mb.force(ctx, c)
                wa, wb = ma.expect(a.start_cond.value, False, False), mb.expect(b.start_cond.value, False, False)
                await sim.cycle()
                ma.verify(ctx, wa)
                mb.verify(ctx, wb)
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    q = tier == "quick"
    for e in ("main", "async", "thread", "process"):
        yield Case(f"overlap {e}", overlap(e, 3 if q else 4), budget=b, weight=3)
        yield Case(f"forced {e}", forced(e, 3 if q else 4), budget=b, weight=2)
        yield Case(f"varied {e}", varied(e, 2 if q else 3), budget=b, weight=2)
    for e1, e2 in [("async", "thread"), ("process", "async"), ("thread", "process"), ("main", "async")]:
        yield Case(f"pair {e1} {e2}", pair(e1, e2, 2 if q else 3), budget=b)
