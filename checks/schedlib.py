"""A scheduler whose threads and processes run under the control of the harness.

The real scheduler, task and session code runs unchanged; thread starts, process starts, process kills and the
inter-process log queue are stand-ins that are stepped by the harness one at a time (so an interleaving is a
sequence of solver-chosen decisions), and the clock is the harness's symbolic clock.  Works the same on plain values.
"""
import copy
import multiprocessing
import multiprocessing.context
import multiprocessing.process
import pickle
import queue
import threading
import types

from checks.tasklib import *
from symx import engine
from rocketry.core import Task, Parameters
from rocketry.args import TerminationFlag
from rocketry.exc import TaskInactionException, TaskTerminationException, SchedulerExit, SchedulerRestart

logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
_thread_start = threading.Thread.start
_thread_alive = threading.Thread.is_alive
_thread_join = threading.Thread.join
SIM = None
LO_ = datetime.datetime(2024, 2, 27)
D1_HI = datetime.datetime(2024, 3, 1)


class Kill(BaseException):
    """Ends a parked thread when the path is over"""


class Stuck(BaseException):
    """The code waits for something that can never happen"""


class Boom(Exception):
    """Failure of a user's function"""


def _reraise():
    c = engine.CTX
    if c is not None and c.abort is not None:
        raise c.abort


class Coop:
    """A thread of control that runs only while the harness waits for it"""
    def __init__(self, sim, target):
        self.sim, self.target = sim, target
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = self.killed = False
        self.exc = None
        self.thread = None
        sim.coops.append(self)

    def start(self, thread=None):
        self.thread = thread or threading.Thread(target=self.body, daemon=True)
        self.thread._daemonic = True
        self.thread._coop = self
        _thread_start(self.thread)
        self.back.acquire()
        _reraise()

    def body(self):
        try:
            self.target()
        except Kill:
            pass
        except BaseException as exc:
            self.exc = exc
        finally:
            self.done = True
            self.back.release()

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Kill()

    def resume(self):
        self.go.release()
        self.back.acquire()
        _reraise()

    def end(self):
        if not self.done and self.thread is not None:
            self.killed = True
            self.go.release()
            self.back.acquire()


def current():
    return getattr(threading.current_thread(), "_coop", None)


def _start(self):
    sim = SIM
    if sim is None or sim.closed:
        return _thread_start(self)
    run = self.run
    co = Coop(sim, run)
    self.run = co.body
    sim.trace.append("thread start")
    co.start(self)


def _alive(self):
    co = getattr(self, "_coop", None)
    if co is None:
        return _thread_alive(self)
    return not co.done


def _join(self, timeout=None):
    co = getattr(self, "_coop", None)
    if co is None:
        return _thread_join(self, timeout)
    if not co.done and timeout is None and SIM is not None and not SIM.closed:
        raise Stuck("join of a thread that is not finished")


class SimQueue(queue.Queue):
    def __init__(self, *a, **k):
        super().__init__()
        self.empties = 0

    def get(self, block=True, timeout=None):
        try:
            r = super().get(block=False)
        except queue.Empty:
            if block:
                self.empties += 1
                if self.empties > 20:
                    raise Stuck("waits for a record that never comes")
            raise
        self.empties = 0
        return r

    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


def _fork(obj, memo):
    """The copy of the task that a child process works on"""
    if isinstance(obj, Task):
        new = type(obj).__new__(type(obj))
        object.__setattr__(new, "__dict__", dict(obj.__dict__))
        object.__setattr__(new, "__fields_set__", set(obj.__fields_set__))
        for name in obj.__private_attributes__:
            if hasattr(obj, name):
                object.__setattr__(new, name, getattr(obj, name))
        for name in obj.__private_attributes__:
            if type(getattr(new, name, None)) is list:
                object.__setattr__(new, name, list(getattr(new, name)))
        ses = object.__new__(type(obj.session))
        ses.__dict__.update(obj.session.__dict__)
        ses.returns = ses.returns.copy()
        ses.parameters = ses.parameters.copy()
        ses.tasks = {new if t is obj else t for t in ses.tasks}
        new.__dict__["session"] = ses
        if SIM is not None:
            SIM.hashes[id(new)] = SIM.hashes.get(id(obj), 0)
            SIM.keep.append(new)
        return new
    return obj


def _proc_start(self):
    sim = SIM
    target = self._target
    owner = getattr(target, "__self__", None)
    kwargs = dict(self._kwargs)
    if sim.spawns:
        pickle.dumps(owner)     # as where processes are not forked; cannot be done as the functions of the harness are local
    if owner is not None:
        target = types.MethodType(target.__func__, _fork(owner, {}))
    if "task_run" in kwargs:
        kwargs["task_run"] = copy.copy(kwargs["task_run"])
    for k in ("params", "direct_params"):
        if k in kwargs:
            kwargs[k] = kwargs[k].copy()
    self._dead = None
    co = Coop(sim, lambda: target(*self._args, **kwargs))
    co.process = self
    self._simco = co
    sim.trace.append("process start")
    sim.n_processes()
    if sim.at_start is not None:
        hook, sim.at_start = sim.at_start, None
        hook()          # what happens elsewhere while the process is starting
    if sim.stillborn:
        sim.stillborn, self._dead = False, 1    # dies before it gets to the task
    else:
        co.start()


def _proc_alive(self):
    co = getattr(self, "_simco", None)
    return co is not None and not co.done and self._dead is None


def _proc_terminate(self):
    if getattr(self, "_simco", None) is None:
        raise AttributeError("'NoneType' object has no attribute 'terminate'")
    if _proc_alive(self):
        self._dead = -15


def _proc_join(self, timeout=None):
    if _proc_alive(self) and timeout is None:
        raise Stuck("join of a process that is not finished")


def _proc_exitcode(self):
    co = getattr(self, "_simco", None)
    if co is None or _proc_alive(self):
        return None
    if self._dead is not None:
        return self._dead
    return 0 if co.exc is None else 1


_P = multiprocessing.process.BaseProcess


def _hash(self):
    sim = SIM
    h = sim.hashes.get(id(self)) if sim is not None else None
    if h is None and sim is not None:
        h = sim.hashes[id(self)] = len(sim.keep)
        sim.keep.append(self)
    return id(self) if h is None else h


_orig = dict(queue=multiprocessing.Queue, ctxqueue=multiprocessing.context.BaseContext.Queue,
             p={n: _P.__dict__.get(n) for n in ("start", "is_alive", "terminate", "kill", "join", "exitcode")})


def _patch():
    threading.Thread.start = _start
    threading.Thread.is_alive = _alive
    threading.Thread.join = _join
    multiprocessing.Queue = SimQueue
    multiprocessing.context.BaseContext.Queue = lambda self, *a, **k: SimQueue()
    _P.start, _P.is_alive, _P.terminate, _P.kill, _P.join = _proc_start, _proc_alive, _proc_terminate, _proc_terminate, _proc_join
    _P.exitcode = property(_proc_exitcode)
    todo = [Task]
    for c in todo:
        c.__hash__ = _hash      # the order of a set of tasks does not depend on addresses
        todo.extend(c.__subclasses__())


def _unpatch():
    threading.Thread.start = _thread_start
    threading.Thread.is_alive = _thread_alive
    threading.Thread.join = _thread_join
    multiprocessing.Queue = _orig["queue"]
    multiprocessing.context.BaseContext.Queue = _orig["ctxqueue"]
    for k, v in _orig["p"].items():
        setattr(_P, k, v)


class Job:
    """One execution of a user's function"""
    def __init__(self, sim, name, execution, params, flag=None, task=None):
        self.sim, self.name, self.execution, self.params, self.flag = sim, name, execution, params, flag
        self.co = current()
        self.fut = None
        self.how = None
        self.ended = False          # the function returned or raised
        self.n = len([j for j in sim.jobs if j.name == name])
        self.began = sim.now
        self.value = None
        sim.jobs.append(self)
        sim.trace.append(f"begin {name}")

    @property
    def alive(self):
        """the function is still being executed"""
        if self.ended:
            return False
        p = getattr(self.co, "process", None)
        return p is None or p.is_alive()

    def outcome(self):
        self.ended = True
        self.sim.trace.append(f"end {self.name} {self.how}")
        if self.how == "success":
            return self.value
        if self.how == "inaction":
            raise TaskInactionException()
        if self.how == "terminate":
            raise TaskTerminationException()
        if self.how == "fail":
            raise Boom(self.name)
        if self.how == "exit":
            raise SchedulerExit()
        if self.how == "restart":
            raise SchedulerRestart()
        raise RuntimeError(self.how)

    def finish(self, how="success", value=None):
        """let the function end"""
        self.how, self.value = how, value
        if self.fut is not None:
            if not self.fut.done():
                self.fut.set_result(None)
        else:
            self.co.resume()


class Sim(Env):
    """instant: name -> outcome for functions that do not wait (main execution always is so)"""
    def __init__(self, ctx, now=None, **config):
        global SIM
        self.closed = False
        self.coops, self.jobs, self.trace, self.keep, self.hashes = [], [], [], [], {}
        self.instant = {}
        self.at_start = None
        self.spawns = False
        self.stillborn = False      # whether the next process dies before it gets to the task
        self.ids = 0
        self.max_alive = 0
        self.started = False
        SIM = self
        _patch()
        config.setdefault("func_run_id", self.run_id)
        super().__init__(ctx, now, **config)
        logging.getLogger("rocketry.task").addFilter(lambda r: True)

    def run_id(self, task, params=None):
        self.ids += 1
        return f"{task.name}#{self.ids}"

    def n_processes(self):
        n = sum(1 for c in self.coops if getattr(c, "process", None) is not None and _proc_alive(c.process))
        self.max_alive = max(self.max_alive, n)
        return n

    def fail_log(self, when):
        """make the storage of records fail where when(record) is true"""
        real = self.handler.emit

        def emit(record):
            if when(record):
                raise OSError("cannot write the log")
            return real(record)
        self.handler.emit = emit

    def job_task(self, name, execution, waits=True, params=(), listens=True, **kw):
        """A task whose executions are Jobs"""
        return self.task(name, self.job_func(name, execution, waits, params), execution=execution, **kw)

    def job_func(self, name, execution, waits=True, params=()):
        """A function whose calls are Jobs"""
        sim = self

        def enter(flag, given):
            j = Job(sim, name, execution, dict(given), flag)
            if execution == "main" or not waits:
                j.how = sim.instant.get(name, "success")
                if callable(j.how):
                    j.how = j.how(j)
                j.value = sim.instant.get(name + ".value")
            return j

        if execution == "async":
            async def body(flag, given):
                j = enter(None, given)
                if waits:
                    j.fut = asyncio.get_running_loop().create_future()
                    try:
                        await j.fut
                    except asyncio.CancelledError:
                        if not sim.closed:
                            j.ended = True
                            j.how = "cancelled"
                            sim.trace.append(f"end {name} cancelled")
                        raise
                return j.outcome()
        else:
            def body(flag, given):
                j = enter(flag, given)
                if j.how is None:
                    while True:
                        j.co.pause()
                        if j.how is not None:
                            break
                return j.outcome()
        names = list(params)
        args = ", ".join(names + (["flag=TerminationFlag()"] if execution == "thread" else []))
        given = "{" + ", ".join(f"{n!r}: {n}" for n in names) + "}"
        fl = "flag" if execution == "thread" else "None"
        ns = dict(body=body, TerminationFlag=TerminationFlag)
        src = (f"async def func({args}):\n return await body({fl}, {given})\n" if execution == "async"
               else f"def func({args}):\n return body({fl}, {given})\n")
        exec(src, ns)
        return ns["func"]

    async def turns(self, n=6):
        for _ in range(n):
            await asyncio.sleep(0)
            _reraise()

    async def startup(self):
        await self.session.scheduler.startup()
        _reraise()
        await self.turns()
        self.started = True

    async def cycle(self):
        if not self.started:
            await self.startup()
        await self.session.scheduler.run_cycle()
        _reraise()
        await self.turns()

    def alive(self, name=None):
        return [j for j in self.jobs if j.alive and (name is None or j.name == name)]

    def later(self, ctx, name, lo=None, hi=D1_HI):
        """advance the clock to any later (or the same) instant"""
        t = stamp(ctx, name, LO_, hi)
        ctx.assume(self.now <= t)
        self.now = t
        return t

    def close(self):
        global SIM
        self.closed = True
        self.handler.emit = lambda record: None
        for c in self.coops:
            c.end()
        SIM = None
        _unpatch()


def simulate(ctx, main, now=None, **config):
    """Run the coroutine function main(sim) with a simulated scheduler"""
    sim = Sim(ctx, now, **config)
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main(sim))
        _reraise()
    except Stuck as exc:
        _reraise()
        ctx.fail("nothing waits for ever", str(exc))
    finally:
        sim.closed = True
        try:
            pend = asyncio.all_tasks(loop)
            for t in pend:
                t.cancel()
            sim.handler.emit = lambda record: None
            if pend:
                loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        except BaseException:
            pass
        sim.close()
        asyncio.set_event_loop(None)
        loop.close()
    return sim
