PRE = '''
import asyncio, datetime, logging, threading, time, warnings
warnings.simplefilter("ignore")
from redbird.logging import RepoHandler
from redbird.repos import MemoryRepo
from rocketry import Session
from rocketry.log import RunRecord, TaskLogRecord, MinimalRunRecord
from rocketry.core import BaseCondition

class Flag(BaseCondition):
    def __init__(self, value=False):
        self.value = value
    def get_state(self):
        if isinstance(self.value, Exception):
            raise self.value
        return self.value

repo = MemoryRepo(model=MinimalRunRecord, collection=[])
log = logging.getLogger("rocketry.task")
log.handlers = [RepoHandler(repo)]
log.setLevel(logging.INFO)
logging.getLogger("rocketry.scheduler").setLevel(logging.CRITICAL + 1)

def world(**config):
    config.setdefault("execution", "async")
    config.setdefault("cycle_sleep", None)
    s = Session(config=config)
    s.set_as_default()
    s._set_configs()
    return s

def acts(name):
    return [r.action for r in repo.collection if r.task_name == name]
'''
SEEDS = [
dict(id="c16-batch-order", property="C16", file="rocketry/core/task.py",
     old='''            direct_params.update(self.batches.pop(0))
''',
     new='''            direct_params.update(self.batches.pop(0 if len(self.batches) < 3 else 1))
''',
     needs="three or more pending forced runs with different parameters",
     breaks="the forced runs get their parameters out of order",
     demo=PRE + '''
s = world(execution="main")
got = []
t = s.create_task(func=lambda x: got.append(x), name="a")
for i in range(4):
    t.run(x=i)
async def main():
    await s.scheduler.startup()
    for _ in range(5):
        await s.scheduler.run_cycle()
asyncio.run(main())
assert got == [0, 1, 2, 3], got
'''),
dict(id="c16-hold-forced", property="C16", file="rocketry/core/schedule.py",
     old='''                elif self._flag_enabled.is_set() and self.is_task_runnable(task):
''',
     new='''                elif (self._flag_enabled.is_set() or (task.disabled and task.batches)) and self.is_task_runnable(task):
''',
     needs="the scheduler on hold with a forced run pending for a disabled task",
     breaks="the task is started during the hold",
     demo=PRE + '''
s = world(execution="main")
got = []
t = s.create_task(func=lambda: got.append(1), name="a", disabled=True)
async def main():
    await s.scheduler.startup()
    s.scheduler.on_hold = True
    t.run()
    await s.scheduler.run_cycle()
    assert not got
    s.scheduler.on_hold = False
    await s.scheduler.run_cycle()
    assert got == [1]
asyncio.run(main())
'''),
dict(id="c17-count-runs", property="C17", file="rocketry/core/schedule.py",
     old='''        return sum(task.count_processes_taken() for task in self.tasks)
''',
     new='''        return sum(min(task.count_processes_taken(), 2) for task in self.tasks)
''',
     needs="three runs of one process task in parallel and a limit of three",
     breaks="a fourth process is started",
     demo=PRE + '''
import multiprocessing
class Fake(multiprocessing.Process):
    def is_alive(self): return True
from rocketry.core.task import TaskRun
s = world(execution="process", max_process_count=3, multilaunch=True)
t = s.create_task(func=lambda: None, name="a")
t._run_stack = [TaskRun(start=time.time(), task=Fake()) for _ in range(3)]
assert not s.scheduler.has_free_processors()
'''),
dict(id="c17-negative-priority", property="C17", file="rocketry/core/schedule.py",
     old='''        return sorted(tasks, key=lambda task: getattr(task, "priority", 0), reverse=True)
''',
     new='''        return sorted(tasks, key=lambda task: getattr(task, "priority", 0) or -1, reverse=True)
''',
     needs="a task of the default priority and one of a negative priority in the same cycle",
     breaks="the negative one may be started first",
     demo=PRE + '''
s = world(execution="main")
for trial in range(40):
    s.clear()
    got = []
    for n, p in [("low", -1)] * 1 + [("norm", 0)]:
        s.create_task(func=(lambda n=n: got.append(n)), name=n, priority=p, start_cond="true")
    extra = [s.create_task(func=lambda: None, name=f"x{i}", start_cond="false") for i in range(trial)]
    async def main():
        await s.scheduler.startup()
        await s.scheduler.run_cycle()
    asyncio.run(main())
    assert got == ["norm", "low"], got
'''),
dict(id="c18-inaction-id", property="C18", file="rocketry/core/task.py",
     old='''            self.log_inaction(task_run)
''',
     new='''            self.log_inaction(task_run if execution != "thread" else None)
''',
     needs="a threaded task that inacts",
     breaks="the end record has no run id",
     demo=PRE + '''
from rocketry.exc import TaskInactionException
s = world(execution="thread")
def f():
    raise TaskInactionException()
s.create_task(func=f, name="a", start_cond="true")
async def main():
    await s.scheduler.startup()
    await s.scheduler.run_cycle()
    while s.scheduler.n_alive:
        await asyncio.sleep(0.01)
asyncio.run(main())
assert acts("a") == ["run", "inaction"]
a, b = repo.collection
assert a.run_id and a.run_id == b.run_id, (a, b)
'''),
dict(id="c18-end-cached", property="C18", file="rocketry/core/task.py",
     old='''        else:
            setattr(self, cache_attr, time_now)
            self.status = action

    def get_last_success''',
     new='''        else:
            setattr(self, cache_attr, time_now)
            if action != "terminate" or self.n_alive < 2:
                self.status = action

    def get_last_success''',
     needs="one of two parallel runs terminated while the other goes on",
     breaks="the status is not that of the latest record",
     demo=PRE + '''
s = world(multilaunch=True, timeout=datetime.timedelta(days=1))
async def f():
    await asyncio.sleep(30)
t = s.create_task(func=f, name="a")
async def main():
    await s.scheduler.startup()
    for _ in range(3):
        t.run()
        await s.scheduler.run_cycle()
        await asyncio.sleep(0)
    t._run_stack[0].start -= 3 * 86400
    await s.scheduler.run_cycle()
    assert acts("a")[-1] == "terminate", acts("a")
    assert t.get_status() == "terminate", t.get_status()
asyncio.run(main())
'''),
dict(id="c19-first-run-only", property="C19", file="rocketry/core/task.py",
     old='''            for run in self._run_stack:
                start = run.start
''',
     new='''            for run in self._run_stack[:2]:
                start = run.start
''',
     needs="three runs in parallel of which the third has lasted longer than the timeout",
     breaks="the third run is not terminated in that cycle",
     demo=PRE + '''
s = world(multilaunch=True, timeout=datetime.timedelta(days=1))
async def f():
    await asyncio.sleep(30)
t = s.create_task(func=f, name="a")
async def main():
    await s.scheduler.startup()
    for _ in range(3):
        t.run()
        await s.scheduler.run_cycle()
        await asyncio.sleep(0)
    for r in t._run_stack:
        r.start -= 3 * 86400
    await s.scheduler.run_cycle()
    assert acts("a").count("terminate") == 3, acts("a")
asyncio.run(main())
'''),
dict(id="c19-force-lingers", property="C19", file="rocketry/core/task.py",
     old='''        self._clean_run_stack()
        self.force_termination = False
''',
     new='''        self._clean_run_stack()
        self.force_termination = bool(self._run_stack)
''',
     needs="a termination asked of a thread that takes its time to end, and the task started again after that",
     breaks="the next run is terminated as well",
     demo=PRE + '''
from rocketry.args import TerminationFlag
from rocketry.exc import TaskTerminationException
s = world(execution="thread")
go = threading.Event()
end2 = threading.Event()
n = []
def f(flag=TerminationFlag()):
    n.append(1)
    if len(n) == 1:
        go.wait(20)
        return
    for _ in range(40):
        if flag.is_set():
            raise TaskTerminationException()
        time.sleep(0.01)
t = s.create_task(func=f, name="a")
async def main():
    await s.scheduler.startup()
    t.run()
    await s.scheduler.run_cycle()
    t.terminate()
    await s.scheduler.run_cycle()
    go.set()
    while s.scheduler.n_alive:
        await asyncio.sleep(0.01)
    t.run()
    await s.scheduler.run_cycle()
    while s.scheduler.n_alive:
        await asyncio.sleep(0.01)
asyncio.run(main())
assert acts("a") == ["run", "success", "run", "success"], acts("a")
'''),
dict(id="c20-silence-mixed", property="C20", file="rocketry/core/schedule.py",
     old='''            self.logger.exception(f"Logging failed for task '{task.name}'")
            if not self.session.config.silence_task_logging:
                raise
        except TaskSetupError:
''',
     new='''            self.logger.exception(f"Logging failed for task '{task.name}'")
            if not (self.session.config.silence_task_logging and self.session.config.silence_task_prerun):
                raise
        except TaskSetupError:
''',
     needs="log storage that fails for a task's start with only logging errors silenced",
     breaks="the scheduler stops",
     demo=PRE + '''
s = world(execution="main", silence_task_logging=True)
got = []
s.create_task(func=lambda: None, name="a", start_cond="true", priority=1)
s.create_task(func=lambda: got.append(1), name="b", start_cond="true")
h = log.handlers[0]
real = h.emit
def emit(r):
    if r.task_name == "a" and r.action == "run":
        raise OSError("full")
    real(r)
h.emit = emit
async def main():
    await s.scheduler.startup()
    await s.scheduler.run_cycle()
asyncio.run(main())
assert got == [1]
'''),
dict(id="c20-end-cond-all", property="C20", file="rocketry/core/task.py",
     old='''            if not self.session.config.silence_cond_check:
                raise
            is_end_cond = True
''',
     new='''            if not self.session.config.silence_cond_check or self.permanent:
                raise
            is_end_cond = True
''',
     needs="a permanent task whose end condition raises, with condition errors silenced",
     breaks="the scheduler stops",
     demo=PRE + '''
s = world(execution="main", silence_cond_check=True)
got = []
s.create_task(func=lambda: None, name="a", permanent=True, end_cond=Flag(RuntimeError("x")), priority=1)
s.create_task(func=lambda: got.append(1), name="b", start_cond="true")
async def main():
    await s.scheduler.startup()
    await s.scheduler.run_cycle()
asyncio.run(main())
assert got == [1]
'''),
dict(id="c21-exit-waits", property="C21", file="rocketry/core/schedule.py",
     old='''        non_fatal_excs = (SchedulerRestart,) # Exceptions that are allowed to have graceful exit
''',
     new='''        non_fatal_excs = (SchedulerRestart, TaskLoggingError) # Exceptions that are allowed to have graceful exit
''',
     needs="a fatal logging error while another task runs",
     breaks="the running task is not terminated but waited for",
     demo=PRE + '''
from rocketry.exc import TaskLoggingError
s = world()
async def f():
    await asyncio.sleep(1)
    return 1
s.create_task(func=f, name="a", start_cond="true", priority=1)
s.create_task(func=lambda: None, name="b", start_cond="true", execution="main")
h = log.handlers[0]
real = h.emit
def emit(r):
    if r.task_name == "b":
        raise OSError("full")
    real(r)
h.emit = emit
try:
    asyncio.run(s.scheduler.serve())
except TaskLoggingError:
    pass
assert acts("a") == ["run", "terminate"], acts("a")
'''),
dict(id="c21-startup-spared", property="C21", file="rocketry/core/schedule.py",
     old='''        for task in self.tasks:
            if task.is_alive():
                await self.terminate_task(task, reason=reason)
''',
     new='''        for task in self.tasks:
            if task.is_alive() and not (task.on_startup and task.permanent):
                await self.terminate_task(task, reason=reason)
''',
     needs="a forced shut down while a permanent task of the startup is running",
     breaks="it is not terminated and the scheduler waits for it",
     demo=PRE + '''
s = world(instant_shutdown=True, shut_cond="true")
async def f():
    await asyncio.sleep(3)
s.create_task(func=f, name="a", on_startup=True, permanent=True)
t0 = time.time()
asyncio.run(s.scheduler.serve())
assert acts("a") == ["run", "terminate"], acts("a")
assert time.time() - t0 < 2
'''),
dict(id="c22-inaction-crash", property="C22", file="rocketry/core/task.py",
     old='''        self._last_inaction = self._get_last_action("inaction", from_logs=True, logger=logger)
        self._last_crash''',
     new='''        self._last_inaction = self._get_last_action("inaction", logger=logger)
        self._last_crash''',
     needs="a task whose latest run ended in inaction, and a start of the scheduler with statuses not read from the log",
     breaks="the run is logged as crashed",
     demo=PRE + '''
s = world()
t = s.create_task(func=lambda: None, name="a")
now = time.time()
repo.add(MinimalRunRecord(task_name="a", action="run", created=now - 10, run_id="1"))
repo.add(MinimalRunRecord(task_name="a", action="inaction", created=now - 5, run_id="1"))
asyncio.run(s.scheduler.startup())
assert acts("a") == ["run", "inaction"], acts("a")
'''),
dict(id="c23-batch-leak", property="C23", file="rocketry/core/task.py",
     old='''            direct_params.update(self.batches.pop(0))
        return direct_params
''',
     new='''            batch = self.batches.pop(0)
            direct_params.update(batch)
            for key, value in batch.items():
                if key in self.parameters and key.startswith("_"):
                    self.parameters[key] = value
        return direct_params
''',
     needs="a parameter whose name begins with an underscore, set on the task and for a run",
     breaks="the value of the run stays for the later runs",
     demo=PRE + '''
s = world(execution="main")
got = []
t = s.create_task(func=lambda _x: got.append(_x), name="a", parameters={"_x": 1})
async def main():
    await s.scheduler.startup()
    t.run(_x=2)
    await s.scheduler.run_cycle()
    t.run()
    await s.scheduler.run_cycle()
asyncio.run(main())
assert got == [2, 1], got
'''),
dict(id="c23-session-over-default", property="C23", file="rocketry/core/parameters/parameters.py",
     old='''        params = {**left, **right}
        return type(self)(**params)
''',
     new='''        params = {**left, **{k: v for k, v in right.items() if v is not None or k not in left}}
        return type(self)(**params)
''',
     needs="a more specific level that gives the value None",
     breaks="the less specific value is used",
     demo=PRE + '''
s = world(execution="main")
got = []
s.parameters["x"] = 5
t = s.create_task(func=lambda x: got.append(x), name="a", parameters={"x": None}, start_cond="true")
async def main():
    await s.scheduler.startup()
    await s.scheduler.run_cycle()
asyncio.run(main())
assert got == [None], got
'''),
]
