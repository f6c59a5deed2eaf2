PRE = '''
import datetime, logging, warnings
warnings.simplefilter("ignore")
from redbird.logging import RepoHandler
from redbird.repos import MemoryRepo
from rocketry import Session
from rocketry.log import MinimalRecord

def ts(*a):
    return datetime.datetime(*a).timestamp()

class World:
    def __init__(self, now, **config):
        self.now = now
        self.repo = MemoryRepo(model=MinimalRecord, collection=[])
        log = logging.getLogger("rocketry.task")
        log.handlers = [RepoHandler(self.repo)]
        log.setLevel(logging.INFO)
        self.session = Session(config=dict(time_func=lambda: self.now, execution="main", **config))
        self.session.set_as_default()
        self.session._set_configs()
    def task(self, name):
        return self.session.create_task(func=lambda: None, name=name)
    def put(self, name, action, created):
        self.repo.add(MinimalRecord(task_name=name, action=action, created=created))
    def recall(self):
        for t in self.session.tasks:
            t.set_cached()
    def ask(self, cond, task):
        return cond.observe(task=task, session=self.session)
'''
SEEDS = [
dict(id="c06-hms-fraction", property="C06", file="rocketry/pybox/time/convert.py",
     old="""        return to_microseconds(hour=int(hh), minute=int(mm), second=float(ss))
""",
     new="""        return to_microseconds(hour=int(hh), minute=int(mm), second=int(float(ss)))
""",
     needs="a duration with a clock part that has a fraction of a second",
     breaks="the fraction is dropped",
     demo="""
import datetime
from rocketry.pybox.time import to_timedelta
assert to_timedelta("1 day 02:03:04.5") == datetime.timedelta(days=1, hours=2, minutes=3, seconds=4.5)
"""),
dict(id="c06-mixed-signs", property="C06", file="rocketry/pybox/time/convert.py",
     old="""        elif char == "+":
            continue
""",
     new="""        elif char == "+":
            is_negative = False
""",
     needs="a minus followed by a plus in front of the duration",
     breaks="the duration turns positive",
     demo="""
import datetime
from rocketry.pybox.time import to_timedelta
assert to_timedelta("-+5 min") == -datetime.timedelta(minutes=5)
"""),
dict(id="c07-not-of-group", property="C07", file="rocketry/parse/utils/string_parser.py",
     old='''            pos = self._index(s, [oper_str])
''',
     new='''            pos = self._index(s, [oper_str])
            if side == "right" and pos > 1 and pos < len(s) - 1 and s[pos+1] == "|":
                # the operand is the rest
                pos = len(s) - 1 - self._index(s[::-1], [oper_str])
''',
     needs="a text condition where an or is followed by a not with more operators after it",
     breaks="the nots are applied in another order, which fails or negates the wrong part",
     demo='''
from rocketry.parse import parse_condition
for a in ("true", "false"):
    for b in ("true", "false"):
        for c in ("true", "false"):
            got = parse_condition(f"~{a} | ~{b} & {c}").observe()
            want = (a != "true") or ((b != "true") and (c == "true"))
            assert bool(got) == want, (a, b, c, got)
            got = parse_condition(f"{a} | ~{b} & ~{c}").observe()
            want = (a == "true") or ((b != "true") and (c != "true"))
            assert bool(got) == want, (a, b, c, got)
'''),
dict(id="c07-shared-parts", property="C07", file="rocketry/core/condition/base.py",
     old='''        self_type = type(self)
        for cond in conditions:
            # Avoiding nesting (like Any(Any(...), ...) --> Any(...))
            conds = cond.subconditions if isinstance(cond, self_type) else [cond]
            self.subconditions += conds
''',
     new='''        self_type = type(self)
        for cond in conditions:
            # Avoiding nesting (like Any(Any(...), ...) --> Any(...))
            conds = cond.subconditions if isinstance(cond, self_type) else [cond]
            if not self.subconditions:
                self.subconditions = conds
            else:
                self.subconditions += conds
''',
     needs="a condition of two or-ed ones that is or-ed again while the shorter one is still used",
     breaks="the combined condition grows parts of the conditions made of it",
     demo='''
from rocketry.conds import true, false
either = false | false
wider = either | true
assert wider.observe()
assert not either.observe()
'''),
dict(id="c08-period-end", property="C08", file="rocketry/conditions/task/utils.py",
     old='''                cannot_have_occurred = last_occur is None or last_occur < _start_
''',
     new='''                cannot_have_occurred = last_occur is None or not occurred_on_period
''',
     needs="a record in the period followed by one of the same kind after its end",
     breaks="the condition is false though the task did so in the period",
     demo=PRE + '''
from rocketry.conditions import TaskSucceeded
from rocketry.time import TimeOfDay
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
w.put("a", "success", ts(2024, 5, 6, 11))
w.put("a", "success", ts(2024, 5, 6, 16))
w.recall()
assert w.ask(TaskSucceeded(task="a", period=TimeOfDay("10:00", "12:00")), t)
'''),
dict(id="c08-compare-two", property="C08", file="rocketry/core/condition/base.py",
     old='''        if comps in ({'__gt__': 0}, {'__ge__': 1}, {'__gt__': 0, '__ge__': 1}):
            return True
''',
     new='''        if comps.get('__gt__') == 0 or comps.get('__ge__') == 1:
            return True
''',
     needs="a comparison with a lower bound of one and an upper bound on the same condition",
     breaks="the upper bound is not looked at",
     demo=PRE + '''
from rocketry.conditions import TaskFailed
from rocketry.time import TimeOfDay
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
for h in (11, 12, 13):
    w.put("a", "fail", ts(2024, 5, 6, h))
w.recall()
cond = (TaskFailed(task="a", period=TimeOfDay()) >= 1) < 3
assert not w.ask(cond, t)
'''),
dict(id="c09-terminated-once", property="C09", file="rocketry/conditions/task/task.py",
     old='''        has_not_terminated = TaskTerminated(period=period, task=task) == 0
''',
     new='''        has_not_terminated = TaskTerminated(period=period, task=task) <= retries
''',
     needs="a periodic condition with retries of a task terminated in the ongoing occurrence",
     breaks="a terminated task is run again in the same occurrence",
     demo=PRE + '''
from rocketry.conditions import TaskExecutable
from rocketry.time import TimeOfDay
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
w.put("a", "run", ts(2024, 5, 6, 11))
w.put("a", "terminate", ts(2024, 5, 6, 12))
w.recall()
assert not w.ask(TaskExecutable(period=TimeOfDay(), retries=1), t)
'''),
dict(id="c09-cron-finish", property="C09", file="rocketry/conditions/task/task.py",
     old='''        has_not_run = TaskStarted(period=period, task=task) == 0

        isin_period = (
            True
            if isinstance(period, TimeDelta)
            else IsPeriod(period=period).observe(session=session)
        )
''',
     new='''        has_not_run = TaskStarted(period=period, task=task) == 0

        isin_period = (
            True
            if isinstance(period, TimeDelta)
            else IsPeriod(period=period).observe(session=session)
        )
        if isin_period and task is not None and not isinstance(task, str) and task.status == "fail":
            # Failed starts are not counted
            has_not_run = TaskSucceeded(period=period, task=task) == 0
''',
     needs="a cron task that started and failed within the matching minute",
     breaks="it is started again in that minute",
     demo=PRE + '''
from rocketry.conds import cron
w = World(ts(2024, 5, 6, 18, 0, 40))
t = w.task("a")
w.put("a", "run", ts(2024, 5, 6, 18, 0, 1))
w.put("a", "fail", ts(2024, 5, 6, 18, 0, 5))
w.recall()
assert not w.ask(cron("0 * * * *"), t)
'''),
dict(id="c10-fail-based", property="C10", file="rocketry/conditions/api.py",
     old='''        return TaskFailed(period=TimeDelta(past, kws_past=kws_past)) == 0
''',
     new='''        return TaskFailed(period=TimeDelta(past, kws_past=kws_past)) < 2
''',
     needs="every X based on failures after one failure newer than X",
     breaks="the task is startable too early",
     demo=PRE + '''
from rocketry.conds import every
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
w.put("a", "run", ts(2024, 5, 6, 17, 50))
w.put("a", "fail", ts(2024, 5, 6, 17, 55))
w.recall()
assert not w.ask(every("10 minutes", based="fail"), t)
'''),
dict(id="c12-same-latest", property="C12", file="rocketry/conditions/task/utils.py",
     old='''        last_depend_finish = depend_task.logger.get_latest(action=in_(self._dep_actions))
''',
     new='''        last_depend_finish = depend_task.logger.get_latest(action=in_(self._dep_actions + ["inaction"]))
        if last_depend_finish and get_field_value(last_depend_finish, "action") == "inaction":
            return False
''',
     needs="the followed task succeeded and then inacted before the dependent task was started",
     breaks="the dependent task misses the success",
     demo=PRE + '''
from rocketry.conds import after_success
w = World(ts(2024, 5, 6, 18))
a, b = w.task("a"), w.task("b")
w.put("b", "run", ts(2024, 5, 6, 9))
w.put("a", "success", ts(2024, 5, 6, 10))
w.put("a", "inaction", ts(2024, 5, 6, 11))
w.recall()
assert w.ask(after_success(a), b)
'''),
dict(id="c12-any-fail", property="C12", file="rocketry/conditions/api.py",
     old='''def after_any_fail(*tasks):
    return Any(*(after_fail(task) for task in tasks))
''',
     new='''def after_any_fail(*tasks):
    return Any(*(after_fail(task) for task in dict.fromkeys(tasks[:2])))
''',
     needs="after any of three or more tasks failed where only the third did",
     breaks="the dependent task is not started",
     demo=PRE + '''
from rocketry.conds import after_any_fail
w = World(ts(2024, 5, 6, 18))
ts_ = [w.task(n) for n in "abc"]
d = w.task("d")
w.put("c", "fail", ts(2024, 5, 6, 10))
w.recall()
assert w.ask(after_any_fail(*ts_), d)
'''),
dict(id="c13-terminated-row", property="C13", file="rocketry/conditions/task/task.py",
     old='''            action=in_(['success', 'crash', 'inaction', 'terminate'])
''',
     new='''            action=in_(['success', 'crash', 'inaction'])
''',
     needs="a termination between failures of a task with a limited number of retries",
     breaks="failures before the termination are counted and the retry is denied",
     demo=PRE + '''
from rocketry.conds import retry
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
w.put("a", "fail", ts(2024, 5, 6, 9))
w.put("a", "terminate", ts(2024, 5, 6, 10))
w.put("a", "fail", ts(2024, 5, 6, 11))
w.recall()
assert w.ask(retry(1), t)
'''),
dict(id="c15-newest-run", property="C15", file="rocketry/conditions/task/task.py",
     old='''                if run.is_alive() and start <= session._format_timestamp(run.start) <= end
            ]
            return runs
''',
     new='''                if run.is_alive() and start <= session._format_timestamp(run.start) <= end
            ]
            if runs and self.period is not None and self.period.near and task._run_stack[-1].start not in runs:
                # only the latest run counts
                runs = []
            return runs
''',
     needs="two runs of a task alive of which only the older one has run longer than the limit",
     breaks="running longer than the limit is false",
     demo=PRE + '''
from rocketry.conditions.api import running
from rocketry.core.task import TaskRun
class Alive:
    def done(self): return False
class R(TaskRun):
    def is_alive(self): return True
w = World(ts(2024, 5, 6, 18))
t = w.task("a")
t._run_stack = [R(start=ts(2024, 5, 6, 17), task=Alive()), R(start=ts(2024, 5, 6, 17, 59), task=Alive())]
assert w.ask(running.more_than("30 minutes"), t)
'''),
dict(id="c29-this-minute", property="C29", file="rocketry/time/construct.py",
     old="""    "this minute": TimeOfMinute,
""",
     new="""    "this minute": TimeOfHour,
""",
     needs="a text condition about this minute with a record earlier in the hour",
     breaks="records of the whole hour count",
     demo=PRE + """
from rocketry.parse import parse_condition
w = World(ts(2024, 5, 6, 18, 30, 30))
t = w.task("a")
w.put("a", "success", ts(2024, 5, 6, 18, 10))
w.recall()
assert not w.ask(parse_condition("task 'a' has succeeded this minute"), t)
"""),
dict(id="c29-on-day", property="C29", file="rocketry/parse/_setup_cond_parsers.py",
     old="""        "every": TimeDelta,
        "on": get_on,

""",
     new="""        "every": TimeDelta,
        "on": get_after,

""",
     needs="a text condition on whether a task has done something on a week day, looked at on a later day",
     breaks="later days count as well",
     demo=PRE + """
from rocketry.parse import parse_condition
w = World(ts(2024, 5, 9, 18)) # Thursday
t = w.task("a")
w.put("a", "fail", ts(2024, 5, 8, 18, 10))
w.recall()
assert not w.ask(parse_condition("task 'a' has failed this week on Tuesday"), t)
"""),
]
