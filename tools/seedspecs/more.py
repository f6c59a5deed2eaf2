import os, runpy
_here = os.path.dirname(os.path.abspath(__file__))
PRE = runpy.run_path(_here + "/sched.py")["PRE"]
CPRE = runpy.run_path(_here + "/conds.py")["PRE"]
SEEDS = [
dict(id="c13-many-retries", property="C13", file="rocketry/conditions/task/task.py",
     old="""        if self.n == -1:
""",
     new="""        if self.n == -1 or self.n >= 10:
""",
     needs="ten or more retries allowed and more failures than that in a row",
     breaks="the task is retried for ever",
     demo=CPRE + """
from rocketry.conditions import Retry
w = World(ts(2024, 3, 1, 12))
t = w.task("a")
for i in range(11):
    w.put("a", "run", ts(2024, 3, 1, 10, i)); w.put("a", "fail", ts(2024, 3, 1, 10, i, 30))
w.recall()
assert w.ask(Retry(n=11), t)
assert not w.ask(Retry(n=10), t)
"""),
dict(id="c15-dead-run", property="C15", file="rocketry/conditions/task/task.py",
     old="""                if run.is_alive() and start <= session._format_timestamp(run.start) <= end
""",
     new="""                if (run.is_alive() or run is task._run_stack[-1]) and start <= session._format_timestamp(run.start) <= end
""",
     needs="the latest run of a task ended but is still to be cleaned up by the scheduler",
     breaks="an ended run counts as running",
     demo=PRE + """
from rocketry.conditions import TaskRunning
s = world(execution="thread")
t = s.create_task(func=lambda: None, name="a")
async def main():
    await t.start_async()
    for _ in range(200):
        if not t._run_stack or not t._run_stack[-1].is_alive():
            break
        time.sleep(0.01)
asyncio.run(main())
assert not TaskRunning(task="a").observe(session=s)
"""),
dict(id="c24-stale-return", property="C24", file="rocketry/core/schedule.py",
     old="""                elif record.action == "success":
                    # Take""",
     new="""                elif record.action == "success" and (record.run_id == task._run_stack[-1].run_id if task._run_stack else True):
                    # Take""",
     needs="parallel runs of a process task of which an older one ends last",
     breaks="the value of the older run is lost",
     demo=PRE + """
import multiprocessing, os, tempfile, sys
from rocketry.args import Return
def work(x, path):
    while not os.path.exists(path + str(x)):
        time.sleep(0.01)
    return x
if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as d:
        s = world(execution="process", multilaunch=True, max_process_count=4)
        t = s.create_task(func=work, name="a", parameters={"path": d + "/"})
        got = []
        u = s.create_task(func=lambda v: got.append(v), name="u", execution="main", parameters={"v": Return("a", default=None)})
        async def until(cond):
            end = time.time() + 60
            while not cond() and time.time() < end:
                await s.scheduler.run_cycle()
                time.sleep(0.01)
        async def main():
            await s.scheduler.startup()
            t.run(x=1); t.run(x=2)
            await until(lambda: acts("a").count("run") == 2)
            open(d + "/1", "w").close()
            await until(lambda: acts("a").count("success") == 1)
            u.run()
            await until(lambda: got)
            open(d + "/2", "w").close()
            await until(lambda: acts("a").count("success") == 2)
        asyncio.run(main())
        assert got == [1], got
"""),
dict(id="c25-half-hour-zone", property="C25", file="rocketry/session.py",
     old="""        return datetime.datetime.fromtimestamp(dt, tz=self.config.timezone)
""",
     new="""        tz = self.config.timezone
        if tz is not None and tz.utcoffset(None).total_seconds() % 3600:
            return datetime.datetime.fromtimestamp(dt - dt % 60, tz=tz)
        return datetime.datetime.fromtimestamp(dt, tz=tz)
""",
     needs="a timezone whose offset is not in full hours",
     breaks="times lose their seconds",
     demo=CPRE + """
from rocketry.conds import time_of_day
w = World(ts(2024, 3, 1, 12, 0, 30), timezone=datetime.timezone(datetime.timedelta(hours=5, minutes=30)))
t = w.task("a")
c = time_of_day.after("17:30:15")
assert w.ask(c.get_cond() if hasattr(c, "get_cond") else c, t)
"""),
dict(id="c26-rename-count", property="C26", file="rocketry/core/task.py",
     old="""                num = 0
                while name in session:
""",
     new="""                num = 0
                while name in session and num < 3:
""",
     needs="five tasks of the same name in a session where they are renamed",
     breaks="two tasks have one name",
     demo=PRE + """
s = world(task_pre_exist="rename")
for _ in range(7):
    s.create_task(func=lambda: None, name="a")
assert len({t.name for t in s.tasks}) == len(s.tasks) == 7, [t.name for t in s.tasks]
"""),
dict(id="c27-inaction-untold", property="C27", file="rocketry/core/hook.py",
     old="""                gener.send(args)
""",
     new="""                gener.send(args if not args or args[0] is None or issubclass(args[0], Exception) and args[0].__module__ != "rocketry.exc" else (None, None, None))
""",
     needs="a task that is terminated or ends in inaction and a generator hook",
     breaks="the hook is told that the run succeeded",
     demo=PRE + """
from rocketry.exc import TaskInactionException
def stop():
    raise TaskInactionException()
s = world(execution="main")
got = []
@s.hook_task_execute() if hasattr(s, "hook_task_execute") else s.hooks.task_execute.append
def hook(task=None):
    exc = yield
    got.append(exc)
t = s.create_task(func=stop, name="a")
async def main():
    await s.scheduler.startup()
    t.run()
    await s.scheduler.run_cycle()
asyncio.run(main())
assert got and got[0][0] is TaskInactionException, got
"""),
dict(id="c28-run-execution", property="C28", file="rocketry/session.py",
     old="""                if execution is not None:
                    task.execution = execution
""",
     new="""                if execution is not None and not task.on_shutdown:
                    task.execution = execution
""",
     needs="a shutdown task run by hand with a given execution",
     breaks="it is run as another execution type",
     demo=PRE + """
s = world(execution="main")
got = []
t = s.create_task(func=lambda: got.append(threading.current_thread() is threading.main_thread()), name="a", execution="main", on_shutdown=True)
s.run("a", execution="thread")
assert got and got[0] is False, got
"""),
dict(id="c30-args-kept", property="C30", file="rocketry/conditions/func.py",
     old="""        new_self.kwargs = kwargs
""",
     new="""        new_self.kwargs = self.kwargs if not kwargs else kwargs
        if kwargs and isinstance(self.syntax, (list, tuple)):
            self.kwargs = kwargs
""",
     needs="a condition made by a syntax with an optional part, used with and then without it",
     breaks="the condition without the part has the arguments of the other one",
     demo=PRE + """
import re
from rocketry.conditions import FuncCond
from rocketry.parse import parse_condition
s = world(execution="main")
got = []
cond = s.cond(re.compile(r"is there( at (?P<place>.+))?")) if False else None
def there(place="nowhere", time="never"):
    got.append((place, time))
    return True
fc = FuncCond(syntax=[re.compile(r"is at (?P<place>.+)"), "is anywhere"], session=s)
fc(there)
a = parse_condition("is at home", session=s)
b = parse_condition("is anywhere", session=s)
assert a.observe(session=s) and b.observe(session=s)
assert got == [("home", "never"), ("nowhere", "never")], got
"""),
dict(id="c30-cond-task-state", property="C30", file="rocketry/conditions/meta.py",
     old="""        self.session._cond_states[self.name] = value
""",
     new="""        if not self.session._cond_states.get(self.name):
            self.session._cond_states[self.name] = value
""",
     needs="a condition task that first finds its state true and later false",
     breaks="the condition stays true",
     demo=PRE + """
from rocketry.conditions import TaskCond
from rocketry.parse import parse_condition
s = world(execution="main")
state = dict(v=True)
tc = TaskCond(session=s, syntax="is so", start_cond="true", execution="main")
tc(lambda: state["v"])
c = parse_condition("is so", session=s)
got = []
async def main():
    await s.scheduler.startup()
    for v in (True, False):
        state["v"] = v
        await s.scheduler.run_cycle()
        got.append(bool(c.observe(session=s)))
asyncio.run(main())
assert got == [True, False], got
"""),
dict(id="c31-signal", property="C31", file="rocketry/tasks/command.py",
     old="""        if return_code != 0:
""",
     new="""        if return_code > 0:
""",
     needs="a command ended by a signal",
     breaks="the command counts as succeeded",
     demo=PRE + """
from rocketry.tasks import CommandTask
s = world(execution="main")
t = CommandTask(command=["/bin/sh", "-c", "kill -9 $$"], name="t", session=s, execution="main")
t()
assert t.status == "fail", t.status
"""),
dict(id="c31-code-zero", property="C31", file="rocketry/tasks/code.py",
     old="""        return loc.get(self.output_variable, None)
""",
     new="""        return loc.get(self.output_variable) or None
""",
     needs="code whose output is zero",
     breaks="nothing is returned",
     demo=PRE + """
from rocketry.tasks import CodeTask
s = world(execution="main")
t = CodeTask(code="return_value = x - 1", name="t", session=s, execution="main", parameters=dict(x=1))
t()
assert s.returns[t] == 0, s.returns[t]
"""),
]
