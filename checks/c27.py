"""C27: hooks are called exactly when and as often as what they hook to."""
from checks.schedlib import *
from rocketry.args import Task as TaskArg, Session as SessionArg

LEVEL = "model_checking"
BOUNDS = ("2-3 hooks, each a plain function or a generator of 1-2 steps, of each kind (task made, task executed, scheduler started, cycle, shut down); tasks "
          "of each execution type that end in any way (also asking to exit or restart, or when the end cannot be logged), 1-2 runs in parallel, 2-3 cycles")
OUTSIDE = "more hooks; hooks that raise; whether generators are resumed when a run fails before its function is called; hooks of real processes (the hooks of a process run in a stand-in of it)"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
ENDS = ("success", "fail", "inaction", "terminate")


def make(kind, log, i, what):
    if kind == "plain":
        if what == "task":
            def hook(task=TaskArg()):
                log.append((i, "pre", task))
        else:
            def hook(scheduler=SessionArg()):
                log.append((i, "pre", scheduler))
    else:
        if what == "task":
            def hook(task=TaskArg()):
                log.append((i, "pre", task))
                got = yield
                log.append((i, "post", got))
                if kind == "twice":
                    yield
                    log.append((i, "again", None))
        else:
            def hook(scheduler=SessionArg()):
                log.append((i, "pre", scheduler))
                got = yield
                log.append((i, "post", got))
                if kind == "twice":
                    yield
                    log.append((i, "again", None))
    return hook


def executed(execution, n=2, outs=ENDS):
    def run(ctx):
        async def main(sim):
            log = []
            kinds = [ctx.choice(f"hook{i}", ["plain", "generator", "twice"]) for i in range(n)]
            for i, k in enumerate(kinds):
                sim.session.hook_task_execute()(make(k, log, i, "task"))
            waits = ctx.flag("waits") if execution != "main" else False
            how = ctx.choice("how", outs)
            sim.job_task("t", execution, waits=waits, start_cond=Flag(False))
            sim.instant["t"] = how
            await sim.startup()
            t = sim.session["t"]
            for r in range(2):
                del log[:]
                t.run()
                try:
                    await sim.cycle()
                except (SchedulerExit, SchedulerRestart):
                    ctx.check(how in ("exit", "restart"), "no other exception")
                pre = [("pre", i) for i in range(n)]
                post = [("post", i) for i, k in enumerate(kinds) if k != "plain"]
                if waits:
                    ctx.check([(a, i) for i, a, _ in log] == pre, "before a run each hook is called once, in order", repr(log))
                    sim.alive("t")[0].finish(how)
                    await sim.turns()
                    await sim.cycle()
                ctx.check([(a, i) for i, a, _ in log] == pre + post, "each hook is called once before a run, and generators are resumed once after it", repr(log))
                for i, a, x in log:
                    if a == "pre":
                        ctx.check(x.name == "t", "the hook gets the task")
                    elif a == "post":
                        ok = isinstance(x, tuple) and len(x) == 3
                        ctx.check(ok, "a resumed hook gets the exception info")
                        want = dict(success=None, fail=Boom, inaction=TaskInactionException, terminate=TaskTerminationException, exit=SchedulerExit,
                                    restart=SchedulerRestart)[how]
                        ctx.check(ok and x[0] is want and (x[1] is None if want is None else type(x[1]) is want),
                                  "a resumed hook is told how the run ended", repr(x))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), silence_task_prerun=True)
    return run


def unlogged(execution):
    """the end of the run cannot be written to the log"""
    def run(ctx):
        async def main(sim):
            log = []
            kinds = [ctx.choice(f"hook{i}", ["plain", "generator"]) for i in range(2)]
            for i, k in enumerate(kinds):
                sim.session.hook_task_execute()(make(k, log, i, "task"))
            how = ctx.choice("how", ENDS)
            t = sim.job_task("t", execution, waits=False, start_cond=Flag(False))
            sim.instant["t"] = how
            state = dict(bad=ctx.flag("bad"))
            sim.fail_log(lambda r: state["bad"] and r.action != "run")
            await sim.startup()
            t.run()
            await sim.cycle()
            await sim.turns()
            await sim.cycle()
            ctx.check([(a, i) for i, a, _ in log] == [("pre", i) for i in range(2)] + [("post", i) for i, k in enumerate(kinds) if k != "plain"],
                      "each hook is called once before a run, and generators are resumed once after it", repr(log))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), silence_task_prerun=True, silence_task_logging=True)
    return run


def parallel(execution):
    """each run has hooks of its own"""
    def run(ctx):
        async def main(sim):
            log = []

            def hook(task=TaskArg()):
                k = len([x for x in log if x[0] == "pre"])
                log.append(("pre", task.name, k))
                got = yield
                log.append(("post", task.name, k, got[0]))
            sim.session.hook_task_execute()(hook)
            same = ctx.flag("runs of one task")
            for n in (["t"] if same else ["t", "u"]):
                sim.job_task(n, execution, start_cond=Flag(False), multilaunch=True, priority=1 if n == "t" else 0)
            await sim.startup()
            for n in ("tt" if same else "tu"):
                sim.session[n].run()
                await sim.cycle()
            js = list(sim.jobs)
            if ctx.flag("first started ends last"):
                js.reverse()
            hows = {}
            for j in js:
                how = ctx.choice(f"how{sim.jobs.index(j)}", ["success", "fail"])
                hows[sim.jobs.index(j)] = how
                j.finish(how)
                await sim.turns()
            await sim.cycle()
            pre = [x for x in log if x[0] == "pre"]
            post = [x for x in log if x[0] == "post"]
            ctx.check(len(pre) == 2 and len(post) == 2, "each run calls the hook once before and once after", repr(log))
            ctx.check([p[2] for p in post] == [sim.jobs.index(j) for j in js], "hooks are resumed when their own run ends", repr(log))
            for p in post:
                ctx.check(p[1] == sim.jobs[p[2]].name and (p[3] is None) == (hows[p[2]] == "success"), "a resumed hook is told how its own run ended", repr(log))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def scheduler(n=2):
    def run(ctx):
        async def main(sim):
            log = []
            ses = sim.session
            kinds = {}
            for ev, reg in (("startup", ses.hook_startup), ("cycle", ses.hook_scheduler_cycle), ("shutdown", ses.hook_shutdown)):
                kinds[ev] = [ctx.choice(f"{ev}{i}", ["plain", "generator"]) for i in range(n)]
                for i, k in enumerate(kinds[ev]):
                    sub = []
                    reg()(wrap(ev, i, k, log))
            up = ctx.flag("startup task")
            down = ctx.flag("shutdown task")
            cycles = ctx.choice("cycles", [0, 1, 2])
            bad = ctx.flag("fatal error") if cycles else False
            mark = lambda j: log.append(("task", j.name)) or "success"
            for name, on, kw in (("u", up, dict(on_startup=True)), ("d", down, dict(on_shutdown=True)), ("t", True, dict(start_cond=Flag(True)))):
                if on:
                    sim.job_task(name, "main", waits=False, **kw)
                    sim.instant[name] = mark
            if bad:
                b = sim.job_task("b", "main", waits=False, start_cond=Flag(False), priority=-1)
            state = dict(n=0)

            class Stop(BaseCondition):
                def get_state(self):
                    state["n"] += 1
                    if bad and state["n"] == cycles:
                        b.start_cond.value = Boom("fatal")
                    return state["n"] > cycles
            ses.config.shut_cond = Stop()
            try:
                await ses.scheduler.serve()
                raised = False
            except Boom:
                raised = True
            ctx.check(raised == bool(bad), "the error is raised")
            want = [("startup", "pre", i) for i in range(n)]
            if up:
                want.append(("task", "u"))
            want += post("startup", kinds)
            for c in range(cycles):
                want += [("cycle", "pre", i) for i in range(n)]
                want.append(("task", "t"))
                if bad and c == cycles - 1:
                    break
                want += post("cycle", kinds)
            want += [("shutdown", "pre", i) for i in range(n)]
            if down:
                want.append(("task", "d"))
            want += post("shutdown", kinds)
            ctx.check(log == want, "hooks of the scheduler are called once before and resumed once after, in order", f"{log} != {want}")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def post(ev, kinds):
    return [(ev, "post", i) for i, k in enumerate(kinds[ev]) if k != "plain"]


def wrap(ev, i, kind, log):
    if kind == "plain":
        def hook(scheduler=SessionArg()):
            log.append((ev, "pre", i))
    else:
        def hook(scheduler=SessionArg()):
            log.append((ev, "pre", i))
            yield
            log.append((ev, "post", i))
    return hook


def created():
    def run(ctx):
        env = Env(ctx, 0.0)
        ses = env.session
        log = []
        n = ctx.choice("hooks", [1, 2])
        kinds = [ctx.choice(f"hook{i}", ["plain", "generator"]) for i in range(n)]
        for i, k in enumerate(kinds):
            ses.hook_task_init()(make(k, log, i, "task"))
        way = ctx.choice("way", ["direct", "decorator", "command"])
        if ctx.flag("another session is the default"):
            ses2 = Session()
            ses2.hook_task_init()(make("plain", log, 99, "task"))
            ses2.set_as_default()
        for r in range(2):
            del log[:]
            if way == "direct":
                ses.create_task(func=lambda: None, name=f"t{r}", execution="main")
            elif way == "decorator":
                ses.create_task(name=f"t{r}", execution="main")(lambda: None)
            else:
                ses.create_task(command="true", name=f"t{r}", execution="main")
            want = [("pre", i) for i in range(n)] + [("post", i) for i, k in enumerate(kinds) if k != "plain"]
            ctx.check([(a, i) for i, a, _ in log] == want, "hooks are called once before and resumed once after a task is made", repr(log))
            for i, a, x in log:
                if a == "pre":
                    ctx.check(x is ses[f"t{r}"], "the hook gets the task")
    return run


def cases(tier):
    q = tier == "quick"
    b = 60 if q else 400
    n = 2 if q else 3
    for e in ("main", "async", "thread", "process"):
        yield Case(f"executed {e}", executed(e, n, ENDS + (("exit", "restart") if e == "main" else ())), budget=b)
        if e in ("main", "async"):
            yield Case(f"unlogged {e}", unlogged(e), budget=b)
        if e != "main":
            yield Case(f"parallel {e}", parallel(e), budget=b)
    yield Case("scheduler", scheduler(2), budget=b, weight=2)
    yield Case("task made", created(), budget=b)
