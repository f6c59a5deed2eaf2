"""C26: the set of tasks of a session."""
from checks.schedlib import *
from rocketry import Grouper
from rocketry.application import _AppMixin

LEVEL = "model_checking"
BOUNDS = ("3-4 operations in a row (5 thorough), each any of: create a task, add one of another session, include a group (with or without prefix, condition "
          "and execution), rename, remove by name or task, delete; names any of a, b, 'a - 1', 'a - 2'; each way to treat existing names; 7 tasks of one name (12 thorough); a task of any "
          "execution type created or removed by another or by itself while it runs, then ended in any way, in any of 3 cycles")
OUTSIDE = "more operations; other names; the unfinished option to replace tasks"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
NAMES = ("a", "b", "a - 1", "a - 2")


class App(_AppMixin):
    def __init__(self, session):
        self.session = session


def free(name, taken):
    k, n = 0, name
    while n in taken:
        k += 1
        n = f"{name} - {k}"
    return n


def operations(mode, n, kinds, names=NAMES):
    def run(ctx):
        env = Env(ctx, 0.0, task_pre_exist=mode)
        ses = env.session
        other = Session()
        model = {}          # name -> task
        app = App(ses)
        for k in range(n):
            kind = ctx.choice(f"op{k}", kinds)
            name = ctx.choice(f"name{k}", names) if kind != "delete" or model else None
            before = dict(model)
            err = None
            new = None
            try:
                if kind == "create":
                    new = ses.create_task(func=lambda: None, name=name, execution="main")
                elif kind == "add":
                    from rocketry.tasks import FuncTask
                    s2 = Session()
                    t = FuncTask(lambda: None, name=name, execution="main", session=s2)
                    ses.add_task(t)
                    new = t
                elif kind == "again":
                    if name not in model:
                        continue
                    ses.add_task(model[name])
                elif kind == "rename":
                    if not model:
                        continue
                    who = ctx.choice(f"who{k}", sorted(model))
                    model[who].name = name
                elif kind in ("remove", "remove task", "delete"):
                    if name is None:
                        continue
                    if kind == "remove":
                        ses.remove_task(name)
                    elif name not in model:
                        continue
                    elif kind == "delete":
                        model[name].delete()
                    else:
                        ses.remove_task(model[name])
            except (ValueError, KeyError) as exc:
                err = exc
            taken = name in before
            # what should have happened
            if kind in ("create", "add"):
                if not taken:
                    ctx.check(err is None, "a task with a new name is taken", repr(err))
                    if err is None:
                        model[name] = new
                elif mode == "raise":
                    ctx.check(err is not None, "a task with an existing name is refused")
                elif mode == "ignore":
                    ctx.check(err is None, "a task with an existing name is left out silently", repr(err))
                else:
                    ctx.check(err is None, "a task with an existing name is renamed", repr(err))
                    if err is None:
                        model[free(name, before)] = new
                        ctx.check(new.name == free(name, before), "a task with an existing name gets a number", new.name)
                if err is None and new is not None and new in model.values():
                    ctx.check(new.session is ses, "a task knows its session")
            elif kind == "again":
                ctx.check((err is not None) == (mode == "raise"), "a task that is there already is refused or left as it is", repr(err))
                ctx.check(model[name].name == name, "a task that is there already keeps its name", model[name].name)
            elif kind == "rename":
                if not taken:
                    ctx.check(err is None, "a task can be renamed", repr(err))
                    model[name] = model.pop(who)
                elif mode == "raise":
                    ctx.check(err is not None or who == name, "a task is not renamed to an existing name")
                elif mode == "rename":
                    if who != name:
                        ctx.check(err is None, "a renamed task gets a number", repr(err))
                        model[free(name, before)] = model.pop(who)
                    else:
                        model = {t.name: t for t in model.values()}
                else:
                    # nothing is promised of the name but that it is its own
                    ctx.assume(False)
            else:
                if not taken:
                    ctx.check(isinstance(err, KeyError), "removing a task that is not there is an error")
                else:
                    ctx.check(err is None, "a task can be removed", repr(err))
                    del model[name]
            agree(ctx, ses, model)
            if not ok(ses, model):
                break
    return run


def many(mode, n):
    """tasks of one name, some of them removed between"""
    def run(ctx):
        ses = Env(ctx, 0.0, task_pre_exist=mode).session
        base = ctx.choice("name", ["a", "b - 1"])
        model = {}
        for k in range(n):
            err = new = None
            try:
                new = ses.create_task(func=lambda: None, name=base, execution="main")
            except (ValueError, KeyError) as exc:
                err = exc
            if base not in model or mode == "rename":
                ctx.check(err is None, "a task is taken", repr(err))
                if err is not None:
                    return
                want = free(base, model)
                ctx.check(new.name == want, "a task with an existing name gets the next free number", new.name)
                model[new.name] = new
            else:
                ctx.check((err is not None) == (mode == "raise"), "a task with an existing name is refused or left out", repr(err))
            agree(ctx, ses, model)
            if not ok(ses, model):
                return
            if k in (2, n - 2) and ctx.flag(f"remove{k}"):
                gone = ctx.choice(f"gone{k}", sorted(model))
                ses.remove_task(gone)
                del model[gone]
                agree(ctx, ses, model)
    return run


def ok(ses, model):
    return set(map(id, ses.tasks)) == set(map(id, model.values()))


def agree(ctx, ses, model):
    got = sorted(t.name for t in ses.tasks)
    ctx.check(len(set(got)) == len(got), "names are unique", repr(got))
    ctx.check(ok(ses, model), "the session has exactly the tasks put and not removed", f"{got} {sorted(model)}")
    for n in NAMES + ("a - 3", "never"):
        ctx.check((n in ses) == (n in model), "a name is in the session iff there is such a task", n)
        try:
            t = ses[n]
        except KeyError:
            t = None
        ctx.check(t is model.get(n), "a task is found by its name", n)


def group(mode):
    def run(ctx):
        env = Env(ctx, 0.0, task_pre_exist=mode, execution="main")
        ses = env.session
        app = App(ses)
        prefix = ctx.choice("prefix", [None, "", "g."])
        ex = ctx.choice("execution", [None, "thread"])
        g_on, g_val = ctx.flag("condition of the group"), ctx.flag("true")
        grp = Grouper(prefix=prefix, start_cond=Flag(g_val) if g_on else None, execution=ex)
        names = ctx.choice("names", [("a",), ("a", "b")])
        own = {n: ctx.choice(f"execution {n}", [None, "main", "process"]) for n in names}
        val = {n: ctx.flag(f"condition {n}") for n in names}
        for n in names:
            grp.task(Flag(val[n]), name=n, execution=own[n])(_func())
        tasks = {n: grp.session[n] for n in names}
        x = ctx.int("x", -9, 9)
        grp.params(x=x)
        app.params(y=1, x=100)
        pre = []
        for n in ("a", "g.a"):
            if ctx.flag("there is " + n):
                ses.create_task(func=_func(), name=n)
                pre.append(n)
        final = {n: (prefix or "") + n for n in names}
        clash = [n for n in names if final[n] in pre]
        try:
            app.include_grouper(grp)
            err = None
        except (KeyError, ValueError) as exc:
            err = exc
        got = sorted(t.name for t in ses.tasks)
        ctx.check(len(set(got)) == len(got), "names are unique", repr(got))
        for n in pre:
            ctx.check(n in got and ses[n] not in tasks.values(), "the tasks there were stay")
        if clash and mode == "raise":
            ctx.check(err is not None, "an existing name is refused")
            return
        ctx.check(err is None, "a group can be included", repr(err))
        if err is not None:
            return
        want = set(pre)
        for n in names:
            name = final[n]
            if n in clash:
                if mode == "ignore":
                    ctx.check(tasks[n] not in ses.tasks, "a task with an existing name is left out")
                    continue
                name = free(name, set(pre) | {final[m] for m in names if m != n})
            want.add(name)
            t = tasks[n]
            ctx.check(name in ses and ses[name] is t, "a task of the group is found by its name with the prefix", f"{name} {got}")
            ctx.check(t.session is ses, "a task knows its session")
            ctx.check(t.get_execution() == (own[n] or ex or "main"), "the execution is its own, else of the group, else of the session")
            ctx.check(t.start_cond.observe(task=t, session=ses) == (val[n] and (not g_on or g_val)), "the condition of the group must hold too")
        ctx.check(set(got) == want, "the session has the tasks of the group and those there were", f"{got} {sorted(want)}")
        ctx.check(ses.parameters["x"] == x and ses.parameters["y"] == 1, "the session gets the parameters of the group")
    return run


def _func():
    def func():
        return None
    return func


def removal(execution, how):
    """a running task is removed, then ends"""
    def run(ctx):
        async def main(sim):
            task = sim.job_task("a", execution, start_cond=Flag(True))
            other = sim.job_task("b", ctx.choice("other", ["async", "process"]), waits=False, start_cond=Flag(True), priority=-1)
            await sim.cycle()
            ctx.check(len(sim.alive("a")) == 1, "it is run")
            j = sim.alive("a")[0]
            early = ctx.flag("ends before it is removed")
            end = ctx.choice("end", ["success", "fail", "inaction"])
            if early:
                j.finish(end)
            if how == "remove":
                sim.session.remove_task("a")
            else:
                task.delete()
            if not early:
                if ctx.flag("a cycle between"):
                    sim.later(ctx, "now")
                    await sim.cycle()
                j.finish(end)
            await sim.turns()
            nb = len([x for x in sim.jobs if x.name == "b"])
            for k in range(2):
                sim.later(ctx, "now")
                await sim.cycle()
                ctx.check(len([x for x in sim.jobs if x.name == "b"]) == nb + k + 1, "the other tasks go on")
            ctx.check(len([x for x in sim.jobs if x.name == "a"]) == 1, "a removed task is not started again")
            acts = [r.action for r in sim.records if r.task_name == "a"]
            ctx.check(acts == ["run", end], "the end of a removed task is recorded", repr(acts))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


def during_start():
    """the end of a removed task arrives while a process is being started"""
    def run(ctx):
        async def main(sim):
            task = sim.job_task("a", "process", start_cond=Flag(True))
            await sim.cycle()
            j = sim.alive("a")[0]
            sim.session.remove_task("a")
            other = sim.job_task("b", "process", waits=False, start_cond=Flag(True))
            sim.at_start = lambda: j.finish(ctx.choice("end", ["success", "fail", "inaction"]))
            await sim.cycle()
            await sim.cycle()
            ctx.check(len([x for x in sim.jobs if x.name == "b"]) == 2, "the other tasks go on")
            ctx.check(len([r for r in sim.records if r.task_name == "a"]) == 2, "the end of a removed task is recorded")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI), timeout=datetime.timedelta(days=900))
    return run


def runtime(execution):
    """tasks made and removed by a task"""
    def run(ctx):
        async def main(sim):
            what = ctx.choice("what", ["create", "remove", "remove itself"])
            first = ctx.flag("before the other")
            sim.job_task("b", execution, waits=False, start_cond=Flag(True))

            def act(job):
                if what == "create":
                    sim.job_task("c", execution, waits=False, start_cond=Flag(True))
                elif what == "remove":
                    sim.session.remove_task("b")
                else:
                    sim.session.remove_task("m")
                return "success"
            m = sim.job_task("m", "main", waits=False, start_cond=Flag(False), priority=1 if first else -1)
            sim.instant["m"] = act
            if ctx.flag("a cycle before"):
                await sim.cycle()
            m.run()
            await sim.cycle()
            for k in range(2):
                n = {x: len([j for j in sim.jobs if j.name == x]) for x in "bcm"}
                await sim.cycle()
                got = {x: len([j for j in sim.jobs if j.name == x]) - n[x] for x in "bcm"}
                ctx.check(got == dict(b=0 if what == "remove" else 1, c=1 if what == "create" else 0, m=0),
                          "exactly the tasks there are are run", repr(got))
            ctx.check(sim.records[-1].action == "success" and [r for r in sim.of("m")][-1].action == "success", "nothing fails")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, D1_HI))
    return run


def cases(tier):
    q = tier == "quick"
    b = 60 if q else 600
    n = 3 if q else 4
    for m in ("raise", "ignore", "rename"):
        yield Case(f"{m}: create and remove", operations(m, n if q else n + 1, ("create", "remove", "delete"), names=NAMES[:3]), budget=b, weight=3)
        yield Case(f"{m}: add", operations(m, n, ("create", "add", "remove task")), budget=b, weight=2)
        yield Case(f"{m}: add again", operations(m, n, ("create", "again", "remove task"), names=NAMES[:3]), budget=b)
        yield Case(f"{m}: many of a name", many(m, 7 if q else 12), budget=b)
        yield Case(f"group {m}", group(m), budget=b)
    for m in ("raise", "rename"):
        yield Case(f"{m}: rename", operations(m, n, ("create", "rename", "remove")), budget=b, weight=2)
    for e in ("async", "thread", "process"):
        for h in ("remove", "delete"):
            yield Case(f"{h} running {e}", removal(e, h), budget=b)
    yield Case("removed process ends during a start", during_start(), budget=b)
    for e in ("main", "async", "thread", "process"):
        yield Case(f"runtime {e}", runtime(e), budget=b)
