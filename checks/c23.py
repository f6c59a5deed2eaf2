"""C23: which value a parameter of the task function gets."""
from checks.schedlib import *
from rocketry.args import Arg, FuncArg, SimpleArg, Return, Task as TaskArg, Session as SessionArg
from rocketry.tasks import FuncTask

LEVEL = "model_checking"
BOUNDS = ("a function of 2 parameters; each given on any set of the levels (batch, task, function argument, session, default of the function), each value "
          "any integer or none, given plainly or as a simple, function, session or piped argument, evaluated before or after the start of a thread or process; each "
          "execution type; 2-3 runs in a row with and without a batch, function arguments that change between them")
OUTSIDE = "more parameters; arguments that refer to each other in circles; environment variables and command line arguments; pickling of values to processes"
ASSUMPTIONS = ["threads, processes and the log queue between processes are stand-ins stepped by the harness"]
LEVELS = ("session", "function", "task", "batch")


def make(got, x, y):
    """def func(x[=...], y[=...])"""
    ns = dict(got=got)
    args = []
    for n, d in (("x", x), ("y", y)):
        if d is None:
            args.append(n)
        else:
            ns[f"d{n}"] = d[0]
            args.append(f"{n}=d{n}")
    args.sort(key=lambda a: "=" in a)
    exec(f"def func({', '.join(args)}):\n got.append((x, y))\n return (x, y)\n", ns)
    return ns["func"]


class Given:
    """a value as it may be given"""
    def __init__(self, ctx, sim, name, forms):
        self.v = ctx.int(name, -1000, 1000)
        self.form = ctx.choice(name + ".form", forms)
        f = self.form
        if f == "plain":
            self.as_ = self.v
        elif f == "none":
            self.as_ = self.v = None
        elif f == "no simple":
            self.v = None
            self.as_ = SimpleArg(None)
        elif f == "simple":
            self.as_ = SimpleArg(self.v)
        elif f == "func":
            self.as_ = FuncArg(lambda: self.v)
        elif f == "session":
            sim.session.parameters["only " + name] = self.v
            self.as_ = Arg("only " + name)
        elif f == "default":
            self.as_ = Arg("there is no such", default=self.v)
        elif f == "pipe":
            self.as_ = Arg("there is no such") >> SimpleArg(self.v) >> SimpleArg(-5000)
        elif f == "piped none":
            self.v = None
            self.as_ = Arg("there is no such") >> SimpleArg(None) >> SimpleArg(-5000)
        elif f == "nested":
            sim.session.parameters["first " + name] = self.v
            src = Arg("first " + name)

            def get(a=src):
                return a + 1
            sim.session.parameters["second " + name] = FuncArg(get)
            self.as_ = Arg("second " + name)
            self.v = self.v + 1
        else:
            raise ValueError(f)


def precedence(execution, forms, levels_y, delayed=False):
    def run(ctx):
        async def main(sim):
            got = []
            vals = {}
            for n in "xy":
                for lv in LEVELS:
                    on = ctx.flag(f"{n} {lv}") if n == "x" else lv in levels_y
                    if on:
                        fs = [f for f in forms if not (lv == "function" and f in ("plain", "none"))]
                        vals[n, lv] = Given(ctx, sim, f"{n}.{lv}", fs if n == "x" else fs[:1])
            defaults = {n: ctx.int(f"{n} default", -1000, 1000) for n in "xy"}
            sim.session.parameters["unrelated"] = 1
            for n in "xy":
                if (n, "session") in vals:
                    sim.session.parameters[n] = vals[n, "session"].as_
            fd = {n: (vals[n, "function"].as_,) if (n, "function") in vals else (defaults[n],) for n in "xy"}
            func = make(got, fd["x"], fd["y"])
            tp = {n: vals[n, "task"].as_ for n in "xy" if (n, "task") in vals}
            task = sim.task("t", func, execution=execution, parameters=tp, start_cond=Flag(False))
            batch = {n: vals[n, "batch"].as_ for n in "xy" if (n, "batch") in vals}

            def want(n, with_batch):
                for lv in ("batch", "task", "function", "session"):
                    if (n, lv) in vals and (lv != "batch" or with_batch):
                        return vals[n, lv].v
                return defaults[n]
            order = [True, False] if ctx.flag("batch first") else [False, True]
            await sim.startup()
            for b in order:
                if b:
                    task.run(batch)
                else:
                    task.start_cond.value = True
                k = len(got)
                await sim.cycle()
                task.start_cond.value = False
                ctx.check(len(got) == k + 1, "the function is called once", repr(sim.records))
                for i, n in enumerate("xy"):
                    if len(got) == k + 1:
                        w = want(n, b)
                        ctx.check(got[-1][i] is None if w is None else got[-1][i] is not None and got[-1][i] == w, "a parameter has the value of its most specific level", n)
            ctx.observe("got", [list(g) for g in got])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def direct(execution, forms):
    """a task started by hand with parameters"""
    def run(ctx):
        async def main(sim):
            got = []
            vals = {lv: Given(ctx, sim, f"x.{lv}", forms[1:] if lv == "function" else forms) for lv in ("session", "function", "passed") if ctx.flag(lv)}
            default = ctx.int("default", -1000, 1000)
            if "session" in vals:
                sim.session.parameters["x"] = vals["session"].as_
            func = make(got, (vals["function"].as_,) if "function" in vals else (default,), (0,))
            task = sim.task("t", func, execution=execution, start_cond=Flag(False))
            await sim.startup()
            for _ in range(2):
                for passed in ([True, False] if ctx.flag("with parameters first") else [False, True]):
                    k = len(got)
                    await task.start_async(params=dict(x=vals["passed"].as_) if passed and "passed" in vals else None)
                    await sim.turns()
                    ctx.check(len(got) == k + 1, "the function is called once", repr(sim.records))
                    want = default
                    # those given at a start by hand are extra ones like those of the session: the task's own are more specific
                    for lv in ("session", "passed", "function") if passed else ("session", "function"):
                        if lv in vals:
                            want = vals[lv].v
                    if len(got) == k + 1:
                        ctx.check(got[-1][0] is None if want is None else got[-1][0] is not None and got[-1][0] == want, "a parameter has the value of its most specific level")
            ctx.observe("got", [list(g) for g in got])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def fresh(execution):
    """the value of an argument is taken at each run"""
    def run(ctx):
        pre = ctx.choice("materialize", [None, "pre", "post"])
        conf = ctx.choice("config", ["pre", "post"])

        async def main(sim):
            got = []
            level = ctx.choice("level", ["session", "function", "task"])
            state = {}
            arg = FuncArg(lambda: state["v"], materialize=pre)
            if level == "session":
                sim.session.parameters["x"] = arg
            func = make(got, (arg,) if level == "function" else None, (0,))
            task = sim.task("t", func, execution=execution, parameters=dict(x=arg) if level == "task" else {}, start_cond=Flag(True))
            await sim.startup()
            for k in range(3):
                state["v"] = ctx.int(f"v{k}", -1000, 1000)
                await sim.cycle()
                ctx.check(len(got) == k + 1, "the function is called once", repr(sim.records))
                ctx.check(got[-1][0] == state["v"], "an argument is evaluated anew for each run")
            ctx.observe("got", [list(g) for g in got])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_), param_materialize=conf)
    return run


def special(execution):
    """the task and the session as arguments; each task its own"""
    def run(ctx):
        async def main(sim):
            got = {}

            def mk(name):
                def func(t=TaskArg(), s=SessionArg(), other=TaskArg("b" if name == "a" else "a")):
                    got[name] = (t, s, other)
                return func
            for n in ctx.choice("order", ["ab", "ba"]):
                sim.task(n, mk(n), execution=execution, start_cond=Flag(True))
            await sim.cycle()
            for n, o in (("a", "b"), ("b", "a")):
                t, s, other = got.get(n, (None, None, None))
                ctx.check(t is not None and t.name == n, "the task argument is the running task")
                ctx.check(other is not None and other.name == o, "a named task argument is that task")
                if execution != "process":
                    ctx.check(t is sim.session[n] and s is sim.session and other is sim.session[o], "the arguments are the very objects")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    q = tier == "quick"
    for e in ("main", "async", "thread", "process"):
        yield Case(f"levels {e}", precedence(e, ["plain", "simple"], ("session", "batch")), budget=b, weight=2)
        yield Case(f"levels, none {e}", precedence(e, ["simple", "none", "no simple"], ()), budget=b, weight=2)
        yield Case(f"levels, other parameter by task {e}", precedence(e, ["simple"], ("task", "function")), budget=b)
        yield Case(f"forms {e}", precedence(e, ["func", "session", "default"] if q else ["func", "session", "default", "pipe", "nested"], ()), budget=b, weight=3)
        yield Case(f"piped forms {e}", precedence(e, ["pipe", "piped none", "nested"], ()), budget=b, weight=2)
        if e in ("main", "thread"):
            yield Case(f"direct {e}", direct(e, ["plain", "simple", "func"]), budget=b)
        yield Case(f"fresh {e}", fresh(e), budget=b)
        yield Case(f"special {e}", special(e), budget=b)
