"""C30: custom conditions: functions called with the arguments given, and checks run as tasks."""
import re
from checks.schedlib import *
from checks.timelib import land, lor, lnot, iff, implies, ite
from rocketry import Rocketry
from rocketry.args import Arg, FuncArg, Return, SimpleArg
from rocketry.args import Session as SessionArg, Task as TaskArg
from rocketry.conditions import FuncCond, TaskCond
from rocketry.conditions.api import condition
from rocketry.parse import parse_condition

LEVEL = "model_checking"
BOUNDS = ("functions of 1-3 parameters, of any integers of -1000..1000 or texts of 1-3 digits, with argument objects (session parameter, function, "
          "return value, task, session) as defaults or none; up to 3 uses of the same function, combined, observed 2-3 times with values changing "
          "between; 1-2 checks run as tasks of any execution, 2-3 runs each ending in any way at any microseconds, valid for any time")
OUTSIDE = "asynchronous functions as conditions; more uses, parameters or runs; active times other than a past duration; a check that shares its function with another syntax"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
INT = (-1000, 1000)


def make(ctx, env, how):
    if how == "app":
        return Rocketry(session=env.session).cond()
    if how == "class":
        return FuncCond(session=env.session)
    return condition()


def calls(given, arg, how="app"):
    """a function called with (x, y): by position, by keyword or by both; arg: what the third parameter's default is"""
    def run(ctx):
        env = Env(ctx)
        env.now = ctx.stamp("now", LO_, D1_HI)
        t = env.task("t")
        other = env.task("other")
        seen = []
        state = dict(p=ctx.int("p0", *INT))
        env.session.parameters["p"] = state["p"]
        env.session.returns[other] = state["p"]
        default = dict(arg=Arg("p"), func=FuncArg(lambda: state["p"]), ret=Return("other"), simple=SimpleArg(7), task=TaskArg(), named=TaskArg("other"),
                       session=SessionArg(), none=5)[arg]

        @make(ctx, env, how)
        def cond(x, y=3, z=default):
            seen.append((x, y, z))
            return x < y
        uses = []
        for i in range(2):
            x, y, z = (ctx.int(f"{n}{i}", *INT) for n in "xyz")
            form = ctx.choice(f"form{i}", given)
            if form == "x":
                uses.append((cond(x), x, 3, None))
            elif form == "x,y":
                uses.append((cond(x, y), x, y, None))
            elif form == "x,y=":
                uses.append((cond(x, y=y), x, y, None))
            elif form == "y=,x=":
                uses.append((cond(y=y, x=x), x, y, None))
            elif form == "x,y,z":
                uses.append((cond(x, y, z), x, y, z))
            elif form == "x,z=":
                uses.append((cond(x, z=z), x, 3, z))
        for k in range(2):
            if k:
                state["p"] = ctx.int("p1", *INT)
                if arg == "arg":
                    env.session.parameters["p"] = state["p"]
                env.session.returns[other] = state["p"]
            for c, x, y, z in uses:
                del seen[:]
                got = c.observe(task=t, session=env.session)
                ctx.observe("got", got)
                ctx.check(iff(got, x < y), "the condition is what the function returns for its arguments")
                ctx.check(len(seen) == 1, "the function is called once per observation", len(seen))
                a, b, d = seen[0]
                ctx.check(land(a == x, b == y), "the function gets the arguments given")
                if z is not None:
                    ctx.check(not isinstance(d, BaseCondition) and d == z, "an argument given goes before the default")
                elif arg in ("arg", "func", "ret"):
                    ctx.check(d == state["p"], "an argument object has its value at the observation")
                elif arg in ("task", "named", "session"):
                    ctx.check(d is dict(task=t, named=other, session=env.session)[arg], f"the argument is the {arg}")
                else:
                    ctx.check(d == dict(simple=7, none=5)[arg], "the argument is the default")
        (a, x0, y0, _), (b, x1, y1, _) = uses
        for name, c, want in (("and", a & b, land(x0 < y0, x1 < y1)), ("or", a | b, lor(x0 < y0, x1 < y1)), ("and not", a & ~b, land(x0 < y0, x1 >= y1))):
            ctx.check(iff(c.observe(task=t, session=env.session), want), f"two uses of a function with {name}")
    return run


def plain(how):
    """a function used without a call, by tasks"""
    def run(ctx):
        env = Env(ctx)
        env.now = ctx.stamp("now", LO_, D1_HI)
        tasks = [env.task(f"t{i}") for i in range(3)]
        state = {}

        @make(ctx, env, how)
        def cond(task=TaskArg(), session=SessionArg()):
            if session is not env.session:
                return None
            return state[task.name]
        for k in range(2):
            for t in tasks:
                t.start_cond = cond if k == 0 else ~cond
                state[t.name] = ctx.bool(f"v{k}{t.name}")
            for t in tasks:
                got = t.start_cond.observe(task=t, session=env.session)
                ctx.check(iff(got, state[t.name] if k == 0 else lnot(state[t.name])), "each task has the condition evaluated for it")
    return run


def started(execution):
    """in a schedule: a task starts in the cycles in which the function says so"""
    def run(ctx):
        async def main(sim):
            state = {}
            sim.session.parameters["lim"] = 0

            @FuncCond(session=sim.session)
            def cond(low, lim=Arg("lim"), task=TaskArg()):
                return land(state["v"] > low, state["v"] < lim, task.name == "a")
            lows = [ctx.int(f"low{i}", *INT) for i in range(2)]
            a = sim.job_task("a", execution, waits=False, start_cond=cond(lows[0]))
            b = sim.job_task("b", execution, waits=False, start_cond=cond(lows[1]))
            a2 = sim.job_task("c", "async", waits=False, start_cond=~cond(low=lows[0]) if ctx.flag("not") else cond(low=lows[0]))
            await sim.startup()
            for c in range(3):
                if c:
                    sim.later(ctx, "now")
                state["v"] = ctx.int(f"v{c}", *INT)
                sim.session.parameters["lim"] = lim = ctx.int(f"lim{c}", *INT)
                n = len([j for j in sim.jobs if j.name == "a"])
                await sim.cycle()
                ctx.check(iff(len([j for j in sim.jobs if j.name == "a"]) == n + 1, land(state["v"] > lows[0], state["v"] < lim)),
                          "a task starts in a cycle exactly when its function says so")
            ctx.check(not [j for j in sim.jobs if j.name == "b"], "the function is asked for the task itself")
        simulate(ctx, main, now=ctx.stamp("start", LO_, D1_HI))
    return run


def text(form, n):
    """conditions of a syntax: the groups of the text are the arguments"""
    def run(ctx):
        env = Env(ctx)
        env.now = ctx.stamp("now", LO_, D1_HI)
        t = env.task("t")
        seen = []
        env.session.parameters["p"] = ctx.int("p", *INT)

        def func(a=None, b=None, p=Arg("p")):
            seen.append((a, b, p))
            return verdict[0]
        syntax = dict(regex=re.compile(r"is foo (?P<a>\d+)"), two=re.compile(r"is foo (?P<a>\d+) of (?P<b>\d+)"), string="is foo",
                      many=["is bar", re.compile(r"is foo (?P<a>\d+)"), "is foo"])[form]
        if ctx.flag("decorator"):
            (FuncCond(syntax=syntax, session=env.session) if ctx.flag("class") else Rocketry(session=env.session).cond(syntax))(func)
        else:
            FuncCond(func, syntax=syntax, session=env.session)
        texts, want = [], []
        for i in range(2):
            a, b = ctx.digits(f"a{i}", n), ctx.digits(f"b{i}", n)
            which = ctx.choice(f"which{i}", ["is bar", "is foo", "group"]) if form == "many" else None
            if form == "regex" or which == "group":
                texts.append("is foo " + a)
                want.append((a, None))
            elif form == "two":
                texts.append("is foo " + a + " of " + b)
                want.append((a, b))
            else:
                texts.append(which or "is foo")
                want.append((None, None))
        conds = [parse_condition(s, session=env.session) for s in texts]
        for k in range(2):
            for c, (a, b) in zip(conds, want):
                del seen[:]
                verdict = [ctx.bool(f"v{k}")]
                got = c.observe(task=t, session=env.session)
                ctx.check(iff(got, verdict[0]), "a condition written by its syntax is what the function returns")
                ctx.check(len(seen) == 1, "the function is called once", len(seen))
                ga, gb, gp = seen[0]
                ctx.check(land(ga is None if a is None else ga == a, gb is None if b is None else gb == b), "the groups of the text are its arguments")
                ctx.check(gp == env.session.parameters["p"], "the other arguments are as in the signature")
    return run


def of_task(execution, n_runs, timed=0, two=False, given=False):
    """a check run as a task"""
    def run(ctx):
        async def main(sim):
            session = sim.session
            if given:
                other = Session(config=dict(cycle_sleep=None))
                other.set_as_default()
            func = sim.job_func("check", execution, waits=False, params=["place"] if two else [])
            digits = ctx.digits("active", timed) if timed else ""
            kw = dict(active_time="past " + digits + " minutes") if timed else {}
            syntax = re.compile(r"is foo at (?P<place>.+)") if two else "is foo"
            kw.update(session=session, syntax=syntax, start_cond=Flag(False), execution=execution)
            if given:
                TaskCond(func=func, **kw)
            else:
                TaskCond(**kw)(func)
            texts = ["is foo at home", "is foo at work"] if two else ["is foo"]
            conds = [parse_condition(s, session=session) for s in texts]
            user = sim.job_task("user", "async", waits=False, start_cond=conds[0])
            ctx.check(len(session.tasks) == len(texts) + 1, "a check is one task for each text")
            checks = [t for t in session.tasks if t is not user]

            def starts(value):
                for t in checks:
                    t.start_cond.value = value
            await sim.startup()
            last = {s: None for s in texts}
            value = {s: False for s in texts}

            def want(s):
                if last[s] is None:
                    return False
                if timed:
                    return land(value[s], last[s] >= sim.now - int(digits) * 60)
                return value[s]

            for r in range(n_runs):
                how = ctx.choice(f"how{r}", ["success", "success", "fail", "none"] if r else ["success", "fail", "none"])
                outcome = {s: ctx.bool(f"value{r}{i}") for i, s in enumerate(texts)}
                starts(how != "none")

                def end(j, how=how, outcome=outcome):
                    s = ("is foo at " + j.params["place"]) if two else "is foo"
                    sim.instant["check.value"] = outcome[s]
                    return how
                sim.instant["check"] = end
                if r:
                    sim.later(ctx, f"run{r}")
                n = len([j for j in sim.jobs if j.name == "check"])
                await sim.cycle()
                starts(False)
                ctx.check(len([j for j in sim.jobs if j.name == "check"]) == n + (len(texts) if how != "none" else 0), "the check runs by its own start condition")
                if how == "success":
                    for s in texts:
                        last[s], value[s] = sim.now, outcome[s]
                # a thread or a process is heard of in the next cycle
                await sim.cycle()
                for s, c in zip(texts, conds):
                    got = c.observe(task=user, session=session)
                    ctx.check(iff(got, want(s)), "the condition is the value of the latest successful check")
                if timed:
                    sim.later(ctx, f"later{r}")
                    for s, c in zip(texts, conds):
                        ctx.check(iff(c.observe(task=user, session=session), want(s)), "the latest check holds for its active time")
                    nu = len([j for j in sim.jobs if j.name == "user"])
                    await sim.cycle()
                    ctx.check(iff(len([j for j in sim.jobs if j.name == "user"]) == nu + 1, want(texts[0])), "a task that uses it starts when it is true")
        simulate(ctx, main, now=ctx.stamp("start", LO_, D1_HI))
    return run


def running(execution):
    """a check that takes its time: the former one holds meanwhile"""
    def run(ctx):
        async def main(sim):
            session = sim.session
            minutes = ctx.choice("minutes", [1, 90])
            TaskCond(session=session, syntax="is foo", active_time=f"past {minutes} minutes", start_cond=Flag(False), execution=execution)(
                sim.job_func("check", execution))
            cond = parse_condition("is foo", session=session)
            (check,) = session.tasks
            last, value = None, False

            def ask(what):
                want = False if last is None else land(value, last >= sim.now - minutes * 60)
                ctx.check(iff(cond.observe(session=session), want), what)
            for r in range(2):
                if r:
                    sim.later(ctx, f"run{r}")
                check.start_cond.value = True
                await sim.cycle()
                check.start_cond.value = False
                ask("a check that runs changes nothing yet")
                sim.later(ctx, f"meanwhile{r}")
                ask("the former check holds for its active time while the next one runs")
                how = ctx.choice(f"how{r}", ["success", "fail", "terminate"])
                outcome = ctx.bool(f"value{r}")
                (job,) = sim.alive("check")
                if how == "terminate":
                    check.terminate()
                    await sim.cycle()
                    if job.alive:
                        job.finish("terminate")
                else:
                    job.finish(how, outcome)
                    if how == "success":
                        last, value = sim.now, outcome
                await sim.turns()
                await sim.cycle()
                ask("the latest successful check holds")
        simulate(ctx, main, now=ctx.stamp("start", LO_, D1_HI))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 300
    forms = ["x", "x,y", "x,y=", "y=,x="]
    for arg in ("arg", "func", "ret", "simple", "task", "named", "session", "none"):
        yield Case(f"arguments given, default {arg}", calls(forms, arg), budget=b)
    for arg in ("arg", "func", "ret", "task", "none"):
        yield Case(f"all arguments given, default {arg}", calls(["x,y,z", "x,z=", "x"], arg), budget=b)
    for how in ("class", "condition"):
        yield Case(f"arguments given, by {how}", calls(forms, "arg", how), budget=b)
    for how in ("app", "class", "condition"):
        yield Case(f"no arguments, by {how}", plain(how), budget=b)
    for e in ("main", "thread") if tier == "quick" else ("main", "async", "thread", "process"):
        yield Case(f"in a schedule {e}", started(e), budget=b)
    for form in ("string", "regex", "two", "many"):
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            yield Case(f"syntax {form} {n} digits", text(form, n), budget=b)
    for e in ("main", "async", "thread", "process"):
        yield Case(f"check as a task {e}", of_task(e, 3), budget=b)
        yield Case(f"check as a task for a time {e}", of_task(e, 2 if tier == "quick" else 3, 1 if tier == "quick" else 2), budget=b)
    for e in ("async", "thread", "process"):
        yield Case(f"check that takes its time {e}", running(e), budget=b)
    for e in ("main", "process"):
        yield Case(f"two checks as tasks {e}", of_task(e, 2, two=True), budget=b)
        yield Case(f"check as a task, function given {e}", of_task(e, 2, given=True), budget=b)
