"""C18: every run leaves one record of its start and one of its end, and they belong together."""
from checks.schedlib import *
from rocketry.args import FuncArg

LEVEL = "model_checking"
BOUNDS = ("1 run (each execution type, each way to end, also by asking to exit or restart, by termination, by a fault in its parameters) or 2-3 runs of a task in "
          "parallel (terminated ones also 4 thorough) or 2 tasks at a time (3 thorough), or 3 runs of which one could not be made (parameters, process that dies at once or cannot be made), starting and ending at any microseconds of 3 days in any order; 3-4 cycles")
OUTSIDE = "more parallel runs; a process that dies without a word after it told its start or is killed after it told its result; faults of the log storage (C20)"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness",
               "floats on the microsecond grid are exact (timestamps)"]
ENDS = ("success", "fail", "inaction", "terminate")


class Book:
    """What should be in the log"""
    def __init__(self, ctx, sim):
        self.ctx, self.sim = ctx, sim
        self.runs = {}          # job -> [began, ended, action]

    def note(self):
        for j in self.sim.jobs:
            if j not in self.runs:
                self.runs[j] = [self.began, None, None]

    def ended(self, j, how):
        self.runs[j][1:] = [self.sim.now, how]

    def verify(self, final=True):
        ctx, recs = self.ctx, self.sim.records
        ids = {}
        for r in recs:
            ids.setdefault(r.run_id, []).append(r)
        ctx.check(None not in ids, "every record tells its run")
        for t in self.sim.session.tasks:
            mine = [r for r in recs if r.task_name == t.name]
            ctx.check(t.get_status() == (mine[-1].action if mine else None), "the status of a task is that of its latest record")
            for a in STATUS:
                last = [r.created for r in mine if r.action == a]
                got = self.sim.last(t, a)
                ctx.check(got is None if not last else got == self.sim.date(last[-1]), "the latest times of a task are those of its latest records", a)
        starts = [r for r in recs if r.action == "run"]
        ctx.check(len(starts) == len(self.runs), "one record of a start per run", f"{len(starts)} {len(self.runs)}")
        # runs of one task begin in the order of their records
        for name in {j.name for j in self.runs}:
            js = [j for j in self.runs if j.name == name]
            rs = [r for r in starts if r.task_name == name]
            for j, r in zip(js, rs):
                began, end, how = self.runs[j]
                mine = ids.get(r.run_id, [])
                ctx.check(r.start == began, "the record of a start tells when the run began")
                ctx.check(all(x.task_name == name for x in mine), "a run id belongs to one task")
                rest = [x for x in mine if x is not r]
                if how is None:
                    ctx.check(not rest, "no end is recorded before a run has ended", repr(rest))
                    continue
                ctx.check(len(rest) == 1, "exactly one end is recorded per run", repr(mine))
                for x in rest[:1]:
                    ctx.check(x.action == how, "the recorded end tells how the run ended", f"{x.action} {how}")
                    ctx.check(x.start == began, "the record of an end tells when that run began")
                    ctx.check(land(x.end == end, x.created == end), "the record of an end tells when that run ended")
                    ctx.check(x.runtime == end - began, "the record of an end tells how long that run took")
                    ctx.check(mine.index(r) < mine.index(x), "the end is recorded after the start")


def single(execution):
    """one run, any end"""
    def run(ctx):
        waits = ctx.flag("waits") if execution != "main" else False
        how = ctx.choice("how", ENDS + (("exit", "restart") if execution in ("main",) else ()))

        async def main(sim):
            task = sim.job_task("t", execution, waits=waits, start_cond=Flag(True))
            sim.instant["t"] = how
            book = Book(ctx, sim)
            book.began = sim.now
            try:
                await sim.cycle()
            except (SchedulerExit, SchedulerRestart):
                ctx.check(how in ("exit", "restart"), "no other exception")
            book.note()
            task.start_cond.value = False
            if waits:
                book.verify()
                sim.later(ctx, "now")
                task.disabled = ctx.flag("disabled meanwhile")
                if ctx.flag("a cycle between"):
                    await sim.cycle()
                sim.jobs[0].finish(how)
                book.ended(sim.jobs[0], how)
                await sim.turns()
                sim.later(ctx, "now")
            else:
                book.ended(sim.jobs[0], "success" if how in ("exit", "restart") else how)
            await sim.turns()
            await sim.cycle()
            await sim.cycle()
            ctx.check(len(sim.jobs) == 1, "it ran once")
            book.verify()
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


def parallel(execution, n=2, ntasks=1, outs=("success", "fail")):
    """several runs that end in any order"""
    def run(ctx):
        async def main(sim):
            names = ["t"] * n if ntasks == 1 else [f"t{i}" for i in range(n)]
            tasks = {k: sim.job_task(k, execution, start_cond=Flag(False), multilaunch=True) for k in dict.fromkeys(names)}
            book = Book(ctx, sim)
            await sim.startup()
            for i, k in enumerate(names):
                if i:
                    sim.later(ctx, "now")
                tasks[k].run()
                book.began = sim.now
                first = sim.jobs[0] if sim.jobs else None
                if execution == "process" and i == 1 and first in sim.alive() and ctx.flag("the first ends while the second starts"):
                    def meanwhile():
                        how = ctx.choice("how meanwhile", outs)
                        first.finish(how)
                        book.ended(first, how)
                    sim.at_start = meanwhile
                await sim.cycle()
                book.note()
                if i < n - 1:
                    await maybe_end(ctx, sim, book, i, outs)
            for i in range(n):
                await maybe_end(ctx, sim, book, n + i, outs, force=True)
            await sim.cycle()
            await sim.cycle()
            book.verify()
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


async def maybe_end(ctx, sim, book, i, outs, force=False):
    alive = sim.alive()
    if not alive:
        return
    pick = ctx.choice(f"who{i}", alive + ([] if force else [None]))
    if pick is None:
        return
    sim.later(ctx, "now")
    how = ctx.choice(f"how{i}", outs)
    pick.finish(how)
    book.ended(pick, how)
    await sim.turns()
    if ctx.flag(f"cycle{i}"):
        sim.later(ctx, "now")
        await sim.cycle()
        book.verify()


def faulty(execution, where):
    """a fault between the decision to run and the function"""
    def run(ctx):
        stage = ctx.choice("materialize", ("pre", "post")) if where == "argument" else None

        async def main(sim):
            def bad():
                raise Boom("argument")
            kw = {}
            if where == "argument":
                kw = dict(params=["x"], parameters=dict(x=FuncArg(bad, materialize=stage)))
            task = sim.job_task("t", execution, start_cond=Flag(True), **kw)
            other = sim.job_task("o", "async", start_cond=Flag(True), waits=False, priority=-1)
            if where == "hook":
                def hook():
                    raise Boom("hook")
                sim.session.hooks.task_execute.append(hook)
            await sim.cycle()
            task.start_cond.value = other.start_cond.value = False
            sim.later(ctx, "now")
            await sim.cycle()
            recs = sim.of("t")
            ctx.check([r.action for r in recs] == ["run", "fail"], "a run that could not be made is recorded as one failed run", repr(recs))
            ctx.check(recs[0].run_id is not None and all(r.run_id == recs[0].run_id for r in recs), "the records of a run have its id", repr(recs))
            ctx.check(not [j for j in sim.jobs if j.name == "t"], "the function was not called")
            if where == "argument":
                ctx.check([r.action for r in sim.of("o")] == ["run", "success"], "another task is not disturbed", repr(sim.records))
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), silence_task_prerun=True)
    return run


def faulty_second(execution):
    """a run goes on while another run of the task could not be made"""
    def run(ctx):
        state = dict(n=0)
        bad_one = ctx.choice("the faulty", (1, 2))
        stage = ctx.choice("materialize", ("pre", "post"))

        def arg():
            state["n"] += 1
            if state["n"] == bad_one:
                raise Boom("argument")
            return 1

        async def main(sim):
            task = sim.job_task("t", execution, start_cond=Flag(False), multilaunch=True, params=["x"], parameters=dict(x=FuncArg(arg, materialize=stage)))
            await sim.startup()
            began = []
            for i in range(3):
                task.run()
                began.append(sim.now)
                await sim.cycle()
                await sim.turns()
                sim.later(ctx, "now")
            ends = {}
            for i in range(2):
                who = ctx.choice(f"who{i}", sim.alive())
                how = ctx.choice(f"how{i}", ("success", "fail"))
                who.finish(how)
                await sim.turns()
                ends[who] = how, sim.now
                sim.later(ctx, "now")
                await sim.cycle()
            starts = [r for r in sim.of("t") if r.action == "run"]
            ctx.check(len(starts) == 3, "one record of a start per run", repr(sim.records))
            ctx.check(len({r.run_id for r in starts}) == 3, "each run has an id of its own", repr(sim.records))
            ctx.check(len(sim.of("t")) == 6, "one record of an end per run", repr(sim.records))
            jobs = iter(sim.jobs)
            for i, r in enumerate(starts):
                ctx.check(r.start == began[i], "the record of a start tells when the run began")
                end = [x for x in sim.of("t") if x.run_id == r.run_id and x is not r]
                ctx.check(len(end) == 1, "exactly one end is recorded per run", repr(sim.records))
                how, at = ("fail", began[i]) if i == bad_one - 1 else ends[next(jobs)]
                for x in end[:1]:
                    ctx.check(x.action == how, "the recorded end tells how the run ended", f"{x.action} {how}")
                    ctx.check(land(x.start == began[i], x.end == at), "the record of an end tells when that run began and ended")
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), silence_task_prerun=True, timeout=datetime.timedelta(days=900))
    return run


def terminated(execution, n):
    """some of the runs are terminated for their time, or all by request"""
    def run(ctx):
        async def main(sim):
            task = sim.job_task("t", execution, start_cond=Flag(False), multilaunch=True)
            book = Book(ctx, sim)
            await sim.startup()
            for i in range(n):
                if i:
                    sim.later(ctx, "now")
                task.run()
                book.began = sim.now
                await sim.cycle()
                book.note()
            sim.later(ctx, "now")
            if ctx.flag("asked"):
                task.terminate()
            else:
                task.__dict__["timeout"] = ctx.td("timeout", 1, 3 * 86400 * US)
            before = sim.alive()
            await sim.cycle()
            task.__dict__["timeout"] = datetime.timedelta(days=900)
            task.session.config.__dict__["timeout"] = datetime.timedelta(days=900)
            for j in before:
                if execution == "thread":
                    if j.flag.is_set():
                        sim.later(ctx, "now")
                        # the function may also get to its end
                        how = ctx.choice("how it ends", ("terminate", "success"))
                        j.finish(how)
                        book.ended(j, how)
                elif not j.alive:
                    book.ended(j, "terminate")
            await sim.turns()
            book.verify()
            while sim.alive():
                j = ctx.choice("next", sim.alive())
                sim.later(ctx, "now")
                how = ctx.choice("how", ("success", "fail"))
                j.finish(how)
                book.ended(j, how)
                await sim.turns()
                await sim.cycle()
                book.verify()
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


def stillborn(multi, pickled=False):
    """a process that dies before it gets to the task, or cannot be made"""
    def run(ctx):
        def later(sim):
            if pickled:
                sim.now += 1.5
            else:
                sim.later(ctx, "now")

        async def main(sim):
            task = sim.job_task("t", "process", start_cond=Flag(False), multilaunch=multi)
            other = sim.job_task("o", "process", start_cond=Flag(False), priority=-1)
            await sim.startup()
            alive = multi and ctx.flag("another run is alive")
            if alive:
                task.run()
                await sim.cycle()
                later(sim)
            if ctx.flag("another task is alive"):
                other.run()
                await sim.cycle()
                later(sim)
                if ctx.flag("it ends meanwhile"):
                    sim.at_start = sim.jobs[-1].finish
            task.run()
            sim.spawns, sim.stillborn = pickled, not pickled
            began = sim.now
            await sim.cycle()
            sim.spawns = sim.stillborn = False
            bad = [r for r in sim.of("t")][1 if alive else 0:]
            ctx.check([r.action for r in bad] == ["run", "fail"], "a run that could not be made is recorded as one failed run", repr(sim.records))
            ctx.check(bad[0].run_id is not None and bad[0].run_id == bad[1].run_id, "the records of a run have its id", repr(sim.records))
            ctx.check(land(bad[0].start == began, bad[1].start == began), "the records tell when the run began")
            later(sim)
            if alive:
                sim.jobs[0].finish()
            task.run()
            await sim.cycle()
            ctx.check(len([j for j in sim.jobs if j.name == "t"]) == 1 + bool(alive), "the task can run again", repr(sim.records))
            if alive:
                ctx.check([r.action for r in sim.of("t") if r.run_id == sim.of("t")[0].run_id] == ["run", "success"], "the run that was alive is recorded", repr(sim.records))
            ctx.observe("log", [(r.action, r.run_id) for r in sim.records])
        simulate(ctx, main, now=ts_of(LO_) / US if pickled else stamp(ctx, "now", LO_, D1_HI), silence_task_prerun=True, timeout=datetime.timedelta(days=900))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    q = tier == "quick"
    yield Case("stillborn process", stillborn(False), budget=b)
    yield Case("stillborn process of several", stillborn(True), budget=b)
    # (plain times: a symbolic one cannot be pickled either)
    yield Case("unpicklable process", stillborn(False, True), budget=b)
    yield Case("unpicklable process of several", stillborn(True, True), budget=b)
    for e in ("main", "async", "thread", "process"):
        yield Case(f"one run {e}", single(e), budget=b)
        yield Case(f"faulty argument {e}", faulty(e, "argument"), budget=b)
        yield Case(f"faulty hook {e}", faulty(e, "hook"), budget=b)
        if e != "main":
            yield Case(f"faulty one of runs {e}", faulty_second(e), budget=b, weight=2)
            yield Case(f"terminated of 2 {e}", terminated(e, 2), budget=b, weight=2)
            yield Case(f"terminated of 3 {e}", terminated(e, 3), budget=b, weight=3)
            yield Case(f"two runs {e}", parallel(e, outs=("success", "fail")), budget=b, weight=3)
            yield Case(f"two runs, inaction {e}", parallel(e, outs=("inaction",)), budget=b, weight=2)
            yield Case(f"two tasks {e}", parallel(e, ntasks=2, outs=("success", "inaction")), budget=b, weight=2)
            yield Case(f"three runs {e}", parallel(e, n=3), budget=b, weight=4)
            if not q:
                yield Case(f"terminated of 4 {e}", terminated(e, 4), budget=b, weight=4)
                yield Case(f"three tasks {e}", parallel(e, n=3, ntasks=3, outs=("success", "inaction")), budget=b, weight=4)
                yield Case(f"two runs, every end {e}", parallel(e, outs=ENDS), budget=b, weight=4)
