"""C20: a fault of one task stays in that task."""
from checks.schedlib import *
from rocketry.args import FuncArg
from rocketry.exc import TaskLoggingError, TaskSetupError

LEVEL = "model_checking"
BOUNDS = ("a faulty task and 1-2 sound ones (any execution types, any of them before or after), 3 cycles at any microseconds; the fault in the function, the "
          "start condition, the end condition, an argument, or the storing of a record (of the start, the end or both), in one or each cycle; faults silenced or not")
OUTSIDE = "more tasks; faults of the scheduler's own hooks; exceptions that are not of type Exception"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
KINDS = ("main", "async", "thread", "process")


class Shaky(BaseCondition):
    """raises when told to"""
    def __init__(self):
        self.value, self.bad = False, False

    def get_state(self):
        if self.bad:
            raise Boom("condition")
        return self.value


def harness(fault, execution, silent, other="async"):
    def run(ctx):
        first = ctx.flag("faulty one first")
        # that of the fault, and the others either way
        mine = dict(start="silence_cond_check", end="silence_cond_check", argument="silence_task_prerun", log="silence_task_logging").get(fault)
        rest = ctx.flag("others silenced")
        conf = {k: silent if k == mine else rest for k in ("silence_cond_check", "silence_task_logging", "silence_task_prerun")}

        async def main(sim):
            bad = ctx.choice("bad", [[1], [0, 1]]) if silent else [1]
            kw = {}
            state = dict(cycle=0, on=True)

            def arg():
                if state["cycle"] in bad and state["on"]:
                    raise Boom("argument")
                return 1
            if fault == "argument":
                kw = dict(params=["x"], parameters=dict(x=FuncArg(arg)))
            if fault in ("end", "log") or execution == "main":
                kw["permanent"] = ctx.flag("permanent")
            a = sim.job_task("a", execution, waits=False, start_cond=Shaky(), end_cond=Shaky(), priority=1 if first else -1, **kw)
            b = sim.job_task("b", other, waits=False, start_cond=Flag(False))
            sim.instant["a"] = lambda j: "fail" if fault == "function" and state["cycle"] in bad else "success"
            acts = ()
            if fault == "log":
                acts = ctx.choice("record", [("run",), ("success",), ("run", "success")])
                sim.fail_log(lambda r: r.task_name == "a" and state["cycle"] in bad and state["on"] and r.action in acts)
            await sim.startup()
            raised = None
            for c in range(3):
                state["cycle"] = c
                if c:
                    sim.later(ctx, "now")
                a.start_cond.bad = fault == "start" and c in bad
                a.end_cond.bad = fault == "end" and c in bad
                a.start_cond.value = True if c != 2 else ctx.flag("again")
                b.start_cond.value = ctx.flag(f"b{c}") if c else True
                na, nb = len([j for j in sim.jobs if j.name == "a"]), len([j for j in sim.jobs if j.name == "b"])
                try:
                    await sim.cycle()
                    if c in bad and fault == "log" and not silent:
                        # a thread or a process is heard of later
                        a.start_cond.value = b.start_cond.value = False
                        state["on"] = False
                        nbb = len([j for j in sim.jobs if j.name == "b"])
                        await sim.cycle()
                        nb += len([j for j in sim.jobs if j.name == "b"]) - nbb
                        b.start_cond.value = False
                except Exception as exc:
                    raised = exc
                    ctx.check(not silent and c in bad and fault != "function", "a silenced fault does not stop the scheduler", repr(exc))
                    break
                newa = len([j for j in sim.jobs if j.name == "a"]) - na
                newb = len([j for j in sim.jobs if j.name == "b"]) - nb
                if silent or fault == "function":
                    ctx.check(newb == int(b.start_cond.value), "another task is started as ever", c)
                    if c not in bad:
                        ctx.check(newa == int(a.start_cond.value), "the task is started again when it is sound")
                    elif fault == "start":
                        ctx.check(newa == 0, "a task whose condition fails is not started")
                    elif fault == "argument":
                        ctx.check(newa == 0, "a task whose arguments fail is not executed")
            if raised is not None:
                want = dict(start=Boom, end=Boom, log=TaskLoggingError, argument=TaskSetupError)[fault]
                ctx.check(isinstance(raised, want), "the fault is told as it is", repr(raised))
            elif not silent and fault != "function":
                ok = fault == "argument" and execution != "main"       # told in the log only
                ok = ok or (fault == "log" and execution in ("async", "thread") and acts == ("success",))   # recorded as failed instead
                ctx.check(ok, "a fault that is not silenced stops the scheduler", fault)
            if silent or fault == "function":
                state["on"] = False
                a.start_cond.value = b.start_cond.value = False
                a.start_cond.bad = a.end_cond.bad = False
                await sim.cycle()
                acts_b = [r.action for r in sim.of("b")]
                ctx.check(acts_b == ["run", "success"] * (len(acts_b) // 2), "the log of another task is as ever", repr(acts_b))
                ctx.check(a.get_status() != "run", "the faulty task is not left as running", a.get_status())
                if fault == "function":
                    acts_a = [r.action for r in sim.of("a")]
                    ctx.check(all(x == "run" for x in acts_a[::2]) and all(x in ("fail", "success") for x in acts_a[1::2]),
                              "a failing function leaves a failed run", repr(acts_a))
                    ctx.check(acts_a[1::2][1] == "fail", "a failing function leaves a failed run")
            ctx.observe("trace", sim.trace)
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900), **conf)
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    for silent in (True, False):
        s = "silenced" if silent else "not silenced"
        for e in KINDS:
            for fault in ("function", "start", "argument", "log"):
                yield Case(f"{fault} {e} {s}", harness(fault, e, silent), budget=b)
        yield Case(f"end async {s}", harness("end", "async", silent), budget=b)
        yield Case(f"end process {s}", harness("end", "process", silent), budget=b)
        for o in ("main", "thread", "process"):
            yield Case(f"function main beside {o} {s}", harness("function", "main", silent, o), budget=b)
            yield Case(f"start process beside {o} {s}", harness("start", "process", silent, o), budget=b)
            yield Case(f"log process beside {o} {s}", harness("log", "process", silent, o), budget=b)
