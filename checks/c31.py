"""C31: tasks of commands and of code."""
import subprocess
from checks.schedlib import *
from rocketry.tasks import CodeTask, CommandTask

LEVEL = "model_checking"
BOUNDS = ("a command (text or list) with 0-2 parameters of the task and 0-2 of the run (values any texts of 2 digits in lists, a few in texts and of other types)"
          ", each form of option; 2-3 runs in a row; any exit code of -255..255, any time taken and any timeout of 1 microsecond to 3 days; each "
          "execution type; code of 1-2 parameters of any integers, run 2-3 times")
OUTSIDE = "what the operating system makes of a command; quotes in the values of a command given as text; more parameters; asynchronous termination of a command"
ASSUMPTIONS = ["subprocess.Popen is a stand-in that records what is to be executed", "threads, processes and the log queue between processes are stand-ins stepped by the harness"]


class World:
    """the commands run"""
    def __init__(self):
        self.runs, self.next = [], None

    def __enter__(self):
        world, P = self, subprocess.Popen
        names = ("__init__", "communicate", "wait", "poll", "kill", "terminate", "__del__", "__exit__")
        self.real = {n: P.__dict__[n] for n in names}

        def init(p, args, *a, **kw):
            if a:
                raise TypeError("positional arguments of Popen are not of the stand-in")
            p.args, p.kw, p.returncode, p.stdin, p.stdout, p.stderr, p.pid = list(args) if not isinstance(args, str) else args, kw, None, None, None, None, -1
            p.killed, p.limit = False, None
            p.plan = world.next(p)
            world.runs.append(p)

        def ended(p, timeout):
            p.limit = timeout
            if p.killed:
                p.returncode = -9
                return
            if timeout is not None and not 0.0 + timeout < 2147483:
                raise OverflowError("timeout is too large")
            if timeout is not None and p.plan["took"] > 0.0 + timeout:
                raise subprocess.TimeoutExpired("command", timeout)
            p.returncode = p.plan["code"]

        def communicate(p, input=None, timeout=None):
            ended(p, timeout)
            return p.plan["out"], b"told"

        def wait(p, timeout=None):
            ended(p, timeout)
            return p.returncode

        def kill(p):
            p.killed = True
        P.__init__, P.communicate, P.wait, P.poll = init, communicate, wait, lambda p: p.returncode
        P.kill = P.terminate = kill
        P.__del__ = lambda p: None
        P.__exit__ = lambda p, *a: None
        return self

    def __exit__(self, *exc):
        for n, f in self.real.items():
            setattr(subprocess.Popen, n, f)


def same_run(ctx, p, command, form, want):
    """whether the arguments are the command and then the options in any order"""
    if isinstance(command, str):
        ctx.check(isinstance(p.args, str), "a command given as text is run as text")
        got = p.args.split()
        head = command.split()
        ok = got[:len(head)] == head
        rest = [x.strip('"') for x in got[len(head):]]
    else:
        head, got = command, p.args
        ok = len(got) >= len(head) and got[:len(head)] == head
        rest = got[len(head):]
    ctx.check(ok, "the command is the one given", repr(got))
    ctx.check(len(rest) == 2 * len(want), "each parameter is once in the command", repr(rest))
    opts = {}
    for k, v in zip(rest[::2], rest[1::2]):
        opts[k] = v
    want = {k if k.startswith("-") else form + k: v for k, v in want.items()}
    ctx.check(set(opts) == set(want), "the options are the parameters", repr(opts))
    for k, v in want.items():
        g = opts[k]
        ctx.check(g == v, "the value of an option is that of the parameter", repr(g))


def command(execution, kind, runs):
    def run(ctx):
        async def main(sim):
            cmd = ["do", "it"] if kind != "text" else "do it"
            argform = ctx.choice("form", [None, "-", "--", "short", "long"])
            form = "-" if argform in ("-", "short") else "--"

            def value(name):
                if kind == "text":
                    return ctx.choice(name, ["a", 7] if name == "x" else ["b"])
                return ctx.digits(name, 2)
            own = {n: value(n) for n in ("x", "--y")[:ctx.choice("own", [0, 1, 2])]}
            kw = dict(argform=argform) if argform is not None else {}
            shell, cwd = ctx.choice("where", [(False, None), (True, "/nowhere"), (False, "/nowhere")]) if argform is None else (False, None)
            task = CommandTask(command=list(cmd) if kind != "text" else cmd, name="t", session=sim.session, execution=execution, parameters=dict(own), shell=shell, cwd=cwd,
                               start_cond=Flag(False), **kw)
            sim.session.parameters["s"] = "of the session"
            with World() as world:
                world.next = lambda p: dict(took=0, code=0, out=b"out")
                await sim.startup()
                for k in range(runs):
                    batch = {n: value(f"{n}{k}") for n in ctx.choice(f"given{k}", ["", "x", "z"])}
                    task.run(batch)
                    await sim.cycle()
                    ctx.check(len(world.runs) == k + 1, "a run executes the command once", repr(sim.records))
                    p = world.runs[-1]
                    want = {**own, **batch}
                    same_run(ctx, p, cmd, form, {n: str(v) if kind == "text" else v for n, v in want.items()})
                    ctx.check(bool(p.kw.get("shell", False)) == shell and p.kw.get("cwd") == cwd, "the command is run in its directory, in a shell if so set")
                await sim.cycle()
                ctx.check([r.action for r in sim.of("t")] == ["run", "success"] * runs, "a command that exits with zero succeeds")
                ctx.check(sim.session.returns[task] == b"out", "the output of the command is the return value")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def integers(execution):
    """values that are no texts, in a list"""
    def run(ctx):
        async def main(sim):
            v = ctx.choice("v", [7, -3, 2.5, True])
            task = CommandTask(command=["do"], name="t", session=sim.session, execution=execution, parameters=dict(x=v), start_cond=Flag(True))
            with World() as world:
                world.next = lambda p: dict(took=0, code=ctx.choice("code", [0]), out=b"")
                await sim.cycle()
                task.start_cond.value = False
                await sim.cycle()
                ctx.check(len(world.runs) == 1, "a run executes the command once", repr(sim.records))
                ctx.check(world.runs[0].args == ["do", "--x", str(v)], "a value is given as text", repr(world.runs[0].args))
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def outcome(execution, runs):
    """what a run comes to"""
    def run(ctx):
        own = ctx.choice("own", ["none", "never", "some"])
        limit = ctx.td("timeout", 1, 3 * 86400 * US)

        async def main(sim):
            task = CommandTask(command=["do"], name="t", session=sim.session, execution=execution, start_cond=Flag(False), timeout="never" if own == "never" else None)
            if own == "some":
                task.__dict__["timeout"] = limit
            want, plans = [], []
            with World() as world:
                def nxt(p):
                    return plans[-1]
                world.next = nxt
                await sim.startup()
                last = None
                for k in range(runs):
                    took = ctx.td(f"took{k}", 0, 3 * 86400 * US)
                    code = ctx.int(f"code{k}", -255, 255)
                    plans.append(dict(took=took.total_seconds(), code=code, out=k))
                    task.run()
                    await sim.cycle()
                    ctx.check(len(world.runs) == k + 1, "a run executes the command once", repr(sim.records))
                    p = world.runs[-1]
                    recs = sim.of("t")
                    ctx.check(len(recs) == 2 * k + 2, "a run has its end in the log", repr(recs))
                    late = own == "some" and took > limit
                    ctx.check(iff(late, p.killed), "a command is killed iff it is over its time")
                    ok = land(lnot(late), code == 0)
                    good = recs[-1].action == "success"
                    ctx.check(good or recs[-1].action == "fail", "a command succeeds or fails", recs[-1].action)
                    ctx.check(iff(ok, good), "a command succeeds iff it exits with zero in its time")
                    if good:
                        last = k
                    if last is None:
                        ctx.check(task not in sim.session.returns, "a command that failed has no return value")
                    else:
                        ctx.check(sim.session.returns[task] == last, "the return value is the latest output")
            ctx.observe("log", [r.action for r in sim.of("t")])
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def code(execution, runs):
    """pieces of code"""
    def run(ctx):
        async def main(sim):
            x = ctx.int("x", -1000, 1000)
            out = ctx.choice("out", ["return_value", "result"])
            kw = {} if out == "return_value" else dict(output_variable=out)
            what = ctx.choice("code", ["sum", "nothing", "fails", "rest"])
            src = dict(sum=f"z = x + y\n{out} = z", nothing="z = x + y", fails=f"{out} = x\nraise ValueError(1)",
                       rest=f"try:\n    rest\nexcept NameError:\n    rest = x\n{out} = rest + y")[what]
            task = CodeTask(code=src, name="t", session=sim.session, execution=execution, parameters=dict(x=x, y=0), start_cond=Flag(False), **kw)
            await sim.startup()
            for k in range(runs):
                y = ctx.int(f"y{k}", -1000, 1000)
                bx = ctx.int(f"x{k}", -1000, 1000) if ctx.flag(f"x given{k}") else x
                task.run(dict(y=y) if bx is x else dict(x=bx, y=y))
                await sim.cycle()
                acts = [r.action for r in sim.of("t")]
                if what == "fails":
                    ctx.check(acts == ["run", "fail"] * (k + 1), "failing code is a failed run", repr(acts))
                    ctx.check(task not in sim.session.returns, "failing code has no return value")
                    continue
                ctx.check(acts == ["run", "success"] * (k + 1), "code is run with its parameters as variables", repr(acts))
                got = sim.session.returns[task]
                if what == "nothing":
                    ctx.check(got is None, "code without its output variable returns nothing")
                else:
                    ctx.check(got is not None and got == bx + y, "the return value of code is its output variable")
        simulate(ctx, main, now=stamp(ctx, "now", LO_, LO_))
    return run


def cases(tier):
    b = 60 if tier == "quick" else 400
    n = 2 if tier == "quick" else 3
    for e in ("main", "thread", "process"):
        for kind in ("list", "text"):
            yield Case(f"{kind} {e}", command(e, kind, n), budget=b)
        yield Case(f"values {e}", integers(e), budget=b)
        yield Case(f"outcome {e}", outcome(e, n), budget=b)
        yield Case(f"code {e}", code(e, n), budget=b)
