"""Sessions, tasks and log histories for harnesses (works the same symbolically and on plain values)."""
import asyncio
import datetime
import logging
import warnings

from redbird.logging import RepoHandler
from redbird.repos import MemoryRepo

from symx.api import *
from rocketry import Session
from rocketry.core import BaseCondition

warnings.simplefilter("ignore")
US = 1000000
TERMINAL = ("success", "fail", "terminate", "inaction", "crash")
STATUS = ("run",) + TERMINAL
EPOCH = datetime.datetime(1970, 1, 1)


class Rec:
    """A stored log record: the fields a log repository keeps"""
    def __init__(self, **kw):
        self.run_id = None
        self.start = None
        self.end = None
        self.runtime = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"<{getattr(self, 'task_name', None)} {getattr(self, 'action', None)} {getattr(self, 'created', None)} {self.run_id}>"


class Env:
    def __init__(self, ctx, now=None, **config):
        self.ctx = ctx
        self.now = now
        logger = logging.getLogger("rocketry.task")
        for name in [n for n in logging.Logger.manager.loggerDict if n.startswith("rocketry.task.")]:
            del logging.Logger.manager.loggerDict[name]
        logger.__dict__.pop("makeRecord", None)
        logger.__dict__.pop("__rocketry_wrapped__", None)
        self.repo = MemoryRepo(model=Rec, collection=[])
        self.handler = RepoHandler(self.repo)
        logger.handlers = [self.handler]
        logger.setLevel(logging.INFO)
        logger.propagate = False
        sched = logging.getLogger("rocketry.scheduler")
        sched.handlers = []
        sched.propagate = False
        sched.setLevel(logging.CRITICAL + 1)
        config.setdefault("cycle_sleep", None)
        self.session = Session(config=dict(time_func=self.time, **config))
        self.session.set_as_default()
        self.session._set_configs()

    def __reduce__(self):
        raise TypeError("cannot pickle the harness")

    def time(self):
        return self.now

    def task(self, name, func=None, decorate=False, **kw):
        kw.setdefault("execution", "async")
        if decorate:
            self.session.create_task(name=name, **kw)(func or _noop())
            return self.session[name]
        return self.session.create_task(func=func or _noop(), name=name, **kw)

    def put(self, task, action, created, **kw):
        self.repo.collection.append(Rec(task_name=getattr(task, "name", task), action=action, created=created, **kw))

    def log(self, task, action, created, **kw):
        """As put, by the task itself (which remembers it)"""
        rec = logging.LogRecord("rocketry.task", logging.INFO, "", 0, "", (), None)
        rec.created = created
        for k, v in dict(kw, action=action, task_name=task.name, run_id=kw.get("run_id")).items():
            setattr(rec, k, v)
        task.log_record(rec)

    def date(self, t):
        return date_of(t)

    @property
    def nowdt(self):
        return self.date(self.now)

    def last(self, task, action):
        """the latest time of an action as the task tells it"""
        return getattr(task, f"get_last_{action}")()

    @property
    def records(self):
        return self.repo.collection

    def of(self, task):
        name = getattr(task, "name", task)
        return [r for r in self.repo.collection if r.task_name == name]

    def recall(self):
        """What a start of the scheduler does to know the history"""
        for t in self.session.tasks:
            t.set_cached()


def _noop():
    def func():
        return None
    return func


class Flag(BaseCondition):
    """A condition with a given state"""
    def __init__(self, value, calls=None, name=None):
        self.value, self.calls, self.name = value, calls, name

    def get_state(self):
        if self.calls is not None:
            self.calls.append(self.name)
        if isinstance(self.value, BaseException):
            raise self.value
        return self.value


def ts_of(dt):
    return int((dt - EPOCH).total_seconds()) * US


def stamp(ctx, name, lo, hi):
    """timestamp between two datetimes"""
    return ctx.stamp(name, lo, hi)




def history(ctx, env, task, n, actions, lo, hi, name="h", memory=False):
    """n records in the order of time, each of any of the actions at any instant of [lo, hi]; -> [(action, created)]"""
    out = []
    prev = None
    for i in range(n):
        a = ctx.choice(f"{name}{i}a", actions)
        t = stamp(ctx, f"{name}{i}t", lo, hi)
        if prev is not None:
            ctx.assume(prev <= t)
        prev = t
        out.append((a, t))
        (env.log if memory else env.put)(task, a, t)
    return out


def run(coro):
    return asyncio.run(coro)
