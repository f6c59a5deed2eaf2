From 95f79d33ebe3e124bbe1cdbdf5e83b6d1f7eb404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:13 +0000
Subject: [PATCH 01/44] fix: months and years roll along the calendar

The next and previous edges of TimeOfMonth and TimeOfYear were computed
with the length of the wrong cycle: the occurrences spilled over short
months, were a day off on non-leap years or could not be constructed.
---
 rocketry/time/interval.py | 63 +++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..605da52 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,5 +1,6 @@
 import calendar
 import datetime
+import itertools
 import re
 from dataclasses import dataclass
 from typing import ClassVar, List
@@ -8,7 +9,7 @@ import dateutil
 
 from rocketry.core.time.anchor import AnchoredInterval
 from rocketry.core.time.base import TimeInterval
-from rocketry.pybox.time import datetime_to_dict, to_microseconds
+from rocketry.pybox.time import datetime_to_dict, to_microseconds, to_timedelta
 from rocketry.pybox.time.interval import Interval
 
 @dataclass(frozen=True, init=False)
@@ -216,8 +217,40 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class CalendarMixin:
+    """Mixin for intervals anchored to a cycle of varying
+    length (the months and the years): the next and the
+    previous edges are looked for from the calendar"""
+
+    def get_edge(self, dt, ms, n):
+        "Get the datetime of ms in the nth cycle from the cycle of dt"
+        raise NotImplementedError
+
+    def get_occurrences(self, dt, step):
+        "Get the starts and the ends around dt (to the direction of step)"
+        over_period = self._start >= self._end
+        first = -1 if step > 0 else 0
+        for n in itertools.count(first, step):
+            start = self.get_edge(dt, self._start, n)
+            end = self.get_edge(dt, self._end, n + 1 if over_period else n)
+            if start < end:
+                # The interval exists on this cycle
+                yield start, end
+
+    def next_start(self, dt):
+        return next(start for start, _ in self.get_occurrences(dt, 1) if start > dt)
+
+    def next_end(self, dt):
+        return next(end for _, end in self.get_occurrences(dt, 1) if end > dt)
+
+    def prev_start(self, dt):
+        return next(start for start, _ in self.get_occurrences(dt, -1) if start <= dt)
+
+    def prev_end(self, dt):
+        return next(end for _, end in self.get_occurrences(dt, -1) if end <= dt)
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +319,15 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
-
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def get_edge(self, dt, ms, n):
+        year, month = divmod(dt.year * 12 + dt.month - 1 + n, 12)
+        n_days = calendar.monthrange(year, month + 1)[1]
+        start = datetime.datetime(year, month + 1, 1, tzinfo=dt.tzinfo)
+        # The days after the end of a short month don't exist
+        return start + to_timedelta(min(ms, to_microseconds(day=n_days)), unit="microsecond")
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +431,15 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def get_edge(self, dt, ms, n):
+        year = dt.year + n
+        if not calendar.isleap(year):
+            # The axis has 29th of February but this year does not
+            leap_day = to_microseconds(day=59)
+            ms -= min(max(ms - leap_day, 0), to_microseconds(day=1))
+        start = datetime.datetime(year, 1, 1, tzinfo=dt.tzinfo)
+        return start + to_timedelta(ms, unit="microsecond")
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From 964b94c867aba52910bdc1e973b9ec92d33e5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 02/44] fix: union of time periods merges every overlapping
 interval

An interval inside another one ended the search and the intervals
overlapping further away were left out.
---
 rocketry/core/time/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..faf3ffa 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -441,8 +441,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -470,8 +468,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From 53fb8f10630b8843d779ed2b05b253c40d6b4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:19 +0000
Subject: [PATCH 03/44] fix: a time is checked against combined periods without
 rolling

Checking whether a time is in an intersection that has no occurrences
(such as Monday and Tuesday, or a cron of 31st of February) recursed
until the recursion limit.
---
 rocketry/core/time/base.py | 6 ++++++
 rocketry/time/cron.py      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index faf3ffa..bde9931 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -294,6 +294,9 @@ class All(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return all(dt in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -399,6 +402,9 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return any(dt in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..eac9ecc 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -26,6 +26,9 @@ class Cron(TimePeriod):
         # -: range of values
         # /: step values
 
+    def __contains__(self, dt):
+        return dt in self.get_subperiod()
+
     def rollforward(self, dt):
         "Get previous time interval of the period."
         return self.get_subperiod().rollforward(dt)
-- 
2.43.0


From 178ff5b3809557cd0b9cf846829a354bac584e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:20 +0000
Subject: [PATCH 04/44] fix: steps of cron fields are counted as cron does

The steps of numeric ranges of days, months and week days were off by
one (1-10/2 was 2nd, 4th...), the steps of a week were counted from
Monday and ranges from Sunday with a step could not be constructed.
---
 rocketry/time/cron.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index eac9ecc..f5f4d30 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
 from typing import Callable
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -48,7 +48,6 @@ class Cron(TimePeriod):
                 continue
             if "/" in expr:
                 expr, step = expr.split("/")
-                step_period = cls.create_range(step=int(step))
             else:
                 step = None
 
@@ -61,19 +60,12 @@ class Cron(TimePeriod):
                     end = conv(int(end))
 
                 if step is not None:
-                    # Unlike in traditional Python ranges,
-                    # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
+                    period = self._get_steps(cls, start, end, step=int(step))
                 else:
                     period = cls(start, end)
             else:
                 # At
-                step_period = cls.create_range(step=int(step)) if step is not None else always
+                step_period = self._get_steps(cls, step=int(step)) if step is not None else always
                 value = conv(int(expr)) if expr.isdigit() else expr
                 if value == "*":
                     period = always & step_period
@@ -89,6 +81,29 @@ class Cron(TimePeriod):
             return default
         return full_period
 
+    def _get_steps(self, cls, start=None, end=None, step=1):
+        "Get every nth unit from start to end (both included)"
+        units = cls._unit_names
+        # Minutes and hours start from zero, days and months from one
+        first = 0 if cls in (TimeOfHour, TimeOfDay) else 1
+
+        def get_index(value):
+            if isinstance(value, str):
+                return cls._unit_mapping[value.lower()]
+            return value - first
+
+        if start is None and end is None:
+            # In cron, the week starts from Sunday
+            start = -1 if cls is TimeOfWeek else 0
+            end = start + len(units) - 1
+        else:
+            start = get_index(start)
+            end = get_index(end)
+            if end < start:
+                # Over the period (ie. from Sunday to Wednesday)
+                end += len(units)
+        return Any(*(cls.at(units[i % len(units)]) for i in range(start, end + 1, step)))
+
     def _convert_day_of_week(self, i:int):
         # In cron, 0 is Sunday but DayOfWeek don't allow zero
         return 7 if i == 0 else i
-- 
2.43.0


From a21516cda3607f59c9fef68400d24494f295b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:23 +0000
Subject: [PATCH 05/44] fix: any value in a list of a cron field covers the
 whole field

The star was ignored in a list with other values (*,5 was only 5).
---
 rocketry/time/cron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index f5f4d30..c4663f8 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -44,8 +44,8 @@ class Cron(TimePeriod):
         full_period = None
         for expr in exprs:
             if expr == "*":
-                # Any
-                continue
+                # Any (also regardless of the rest of the list)
+                return default
             if "/" in expr:
                 expr, step = expr.split("/")
             else:
-- 
2.43.0


From 4da13f05fadeaea3a3855e571573a85b071cd801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:10 +0000
Subject: [PATCH 06/44] fix: comparing a condition does not alter the condition

The comparisons were stored to a dict shared by the copies: 'succeeded == 0'
changed also 'succeeded' (and every comparison made of it).
---
 rocketry/core/condition/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..1698377 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,8 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        # Not altering the comparisons of self
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From 08f48231cbd209e3eef2212567d6b58f1e96d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:11 +0000
Subject: [PATCH 07/44] fix: task conditions use the config of the session they
 are observed with

The force_status_from_logs was read from the default session which
may not be the session of the task.
---
 rocketry/conditions/task/task.py  | 2 +-
 rocketry/conditions/task/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..a6e2268 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From 08ce76a3ea2a34d6dc1f98247f74fd93e04ff7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:37 +0000
Subject: [PATCH 08/44] fix: period of a task whose start condition is about
 its own past

Task.period accessed an attribute that does not exist (cond.kwargs) and
the conditions of such tasks crashed if they had no period of their own.
---
 rocketry/core/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..7726184 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1352,14 +1352,17 @@ class Task(RedBase, BaseModel):
         cond = self.start_cond
         session = self.session
 
+        def is_self(task):
+            return task is None or (task in session and session[task] is self)
+
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if is_self(cond.task):
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
+                if isinstance(sub_stmt, TaskFinished) and is_self(sub_stmt.task) and sub_stmt.period is not None:
                     task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
-- 
2.43.0


From 55afaf138fa280084b21b894cbb6d494067e82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:15 +0000
Subject: [PATCH 09/44] fix: retry works with log records that are dictionaries

---
 rocketry/conditions/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index a6e2268..53ea705 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -474,7 +474,7 @@ class Retry(BaseCondition):
             action=in_(['success', 'crash', 'inaction', 'terminate'])
         ).last()
 
-        last_non_fail_created = 0 if last_non_fail is None else last_non_fail.created
+        last_non_fail_created = 0 if last_non_fail is None else get_field_value(last_non_fail, "created")
 
         n_failed_in_row = task.logger.filter_by(
             created=greater_equal(last_non_fail_created),
-- 
2.43.0


From bbea2321b6e3a03ccbc8f77bf1e85ecad14ece6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:34 +0000
Subject: [PATCH 10/44] fix: running condition read from the log knows runs
 finished after its period

---
 rocketry/conditions/task/task.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 53ea705..4a1a929 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -1,7 +1,7 @@
 from typing import Optional
 import datetime
 
-from redbird.oper import in_, greater_equal, between
+from redbird.oper import in_, greater_equal
 
 from rocketry.core.condition import BaseCondition, BaseComparable
 from rocketry.log.utils import get_field_value
@@ -178,8 +178,9 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the run may have finished after the end of the period
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
         runs = []
@@ -204,9 +205,10 @@ class TaskRunning(BaseComparable):
             is_run = action == "run"
             if not is_run:
                 continue
+            is_on_period = get_field_value(record, "created") <= to_timestamp(end)
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
-                if run_id not in finishes:
+                if run_id not in finishes and is_on_period:
                     runs.append(run_id)
             else:
                 # Less optimized, tries to guess which is the finish
@@ -218,7 +220,8 @@ class TaskRunning(BaseComparable):
                         break
                 else:
                     # No finishes
-                    runs.append(created)
+                    if is_on_period:
+                        runs.append(created)
         return runs
 
     def __str__(self):
-- 
2.43.0


From eb1600e6f44943dded99e7ccda4874387c162694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 11/44] fix: 'always' and 'never' work as condition strings

---
 rocketry/parse/_setup_cond_parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/_setup_cond_parsers.py b/rocketry/parse/_setup_cond_parsers.py
index 856e21d..2222d70 100644
--- a/rocketry/parse/_setup_cond_parsers.py
+++ b/rocketry/parse/_setup_cond_parsers.py
@@ -11,6 +11,7 @@ from rocketry.time import TimeDelta
 
 from rocketry.session import Session
 from rocketry.core.condition import Not
+from rocketry.core.time import TimePeriod
 
 from rocketry.conds import (
     secondly, minutely, hourly, daily, weekly, monthly, every,
@@ -43,7 +44,8 @@ def _from_period_task_has(cls, span_type=None, inverse=False, **kwargs):
 def _set_is_period_parsing():
 
     def _get_is_period(period_constructor, *args, **kwargs):
-        period = period_constructor(*args, **kwargs)
+        is_period = isinstance(period_constructor, TimePeriod)
+        period = period_constructor if is_period else period_constructor(*args, **kwargs)
         return IsPeriod(period=period)
 
     cond_parsers = Session._cls_cond_parsers
-- 
2.43.0


From 66af1bd076f3e949ff90faf9fe79558df14121e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 12/44] fix: a run that ends by calling scheduler exit or
 restart keeps its run id in the log

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 7726184..85b5e6a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
-- 
2.43.0


From 5f2c7647bf96a9c37ed12a555f3ebf1cea3ccb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 13/44] fix: a failure before the execution of a threaded or a
 process task is logged with the run id of the run

---
 rocketry/core/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 85b5e6a..016238e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -683,7 +683,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +697,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +776,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From d45c14ee22c6a40bd33b15da3ecbdae23bbd9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 14/44] fix: the log record of the end of a run tells the start
 of that run and not of the latest one

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 016238e..67e60c1 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1161,7 +1161,7 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From 8a5c68126d64b686497bffc3658c977494ac904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 15/44] fix: runs that have already ended are not terminated
 (and logged) again

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 67e60c1..5efd2d8 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1018,7 +1018,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From 6758219937e5a72927f6cdf1a389a186d855be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:35 +0000
Subject: [PATCH 16/44] fix: an async task that fails before its execution (ie.
 in its arguments) is logged as failed

---
 rocketry/core/task.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5efd2d8..51ac910 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,23 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution != "async":
+                # Handled by the caller
+                raise
+            # Nothing awaits for async tasks
+            self.log_failure(task_run)
+            return None
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From 9c6562aa12ac45103eac0c4733717aa501fcaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 17/44] fix: a run that ended at the very time it started is
 not taken as crashed on startup

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 51ac910..9538486 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -936,7 +936,8 @@ class Task(RedBase, BaseModel):
 
         times = {
             name: getattr(self, f"_last_{name}")
-            for name in ('run', 'success', 'fail', 'terminate', 'inaction', 'crash')
+            # NOTE: a run may have ended at the time it started (run is the last on a tie)
+            for name in ('success', 'fail', 'terminate', 'inaction', 'crash', 'run')
             if getattr(self, f"_last_{name}") is not None
         }
         if times:
-- 
2.43.0


From 8b565b13f9102cb6044c19d7e53a96ee7c1c5e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 18/44] fix: the log record of a crash has the run id of the
 crashed run

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 9538486..0dbf627 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -947,7 +947,9 @@ class Task(RedBase, BaseModel):
             )
             if status == "run":
                 # There has been a sudden crash
-                self.log_crash()
+                record = logger.get_latest(action="run")
+                run_id = record.get("run_id") if isinstance(record, dict) else getattr(record, "run_id", None)
+                self.log_crash(TaskRun(start=self._last_run, task=None, run_id=run_id))
             else:
                 self.status = status
 
-- 
2.43.0


From e0c84dd8517620b3525613be8b93cffb1aa7d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:54 +0000
Subject: [PATCH 19/44] fix: a forced shut down does not make the next shut
 downs forced

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..5e4bc9d 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -111,6 +111,7 @@ class Scheduler(RedBase):
         # Unsetting some flags
         self._flag_shutdown.clear()
         self._flag_restart.clear()
+        self._flag_force_exit.clear()
         self._flag_enabled.set()
 
         self.is_alive = True
-- 
2.43.0


From aeeabdc27f7685bc19ec1e7c314f56083e73453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:54 +0000
Subject: [PATCH 20/44] fix: shutting down again or by force terminates the
 tasks also when the scheduler already waits for them

---
 rocketry/core/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5e4bc9d..e89dcf4 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -369,6 +369,10 @@ class Scheduler(RedBase):
                     await self._hibernate() # This is the time async tasks can continue
 
                     self.handle_logs()
+                    if self._flag_force_exit.is_set():
+                        # Forced while waiting
+                        await self.terminate_all(reason="Instant shutdown of the scheduler")
+                        break
                     for task in self.tasks:
                         if task.permanent:
                             # Would never "finish" anyways
-- 
2.43.0


From 82923fa4d45862fd4b153c1269625ca681745d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 21/44] fix: a parallel run that fails before its execution has
 a start record

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 0dbf627..4aba2c6 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -477,6 +477,7 @@ class Task(RedBase, BaseModel):
         #   - Then params and direct_params are fed to the execute method
         execution = self.get_execution()
         task_run = TaskRun(start=self.session.get_time(), task=None)
+        is_logged = False # Whether the start of this run is logged here
         try:
             self.force_run = False
             params = self.get_extra_params(params, execution=execution)
@@ -498,6 +499,7 @@ class Task(RedBase, BaseModel):
                     task_run.task = async_task
                 self._run_stack.append(task_run)
                 self.log_running(task_run)
+                is_logged = True
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
@@ -531,7 +533,7 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if not is_logged:
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
-- 
2.43.0


From 619efa98079b25d4201d39e714d0df0ed90ccb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 22/44] fix: return value of a process that ends while another
 is started is kept

---
 rocketry/core/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4aba2c6..6303113 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1074,6 +1074,11 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if record.action == "success":
+                    # Another task finished during the setup: its
+                    # return value comes with the record
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From c196e788295a26f73ef35045170ce3fff7be7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 23/44] fix: a process task removed during its run does not
 crash the scheduler

---
 rocketry/core/schedule.py | 4 ++++
 rocketry/core/task.py     | 7 +++++--
 rocketry/session.py       | 5 +++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index e89dcf4..d182cc7 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -264,6 +264,10 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
+                if record.task_name not in self.session:
+                    # The task was removed during its run
+                    self.session._log_removed(record)
+                    continue
                 task = self.session[record.task_name]
                 if record.action == "fail":
                     # There is a caveat in logging
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 6303113..5402c6e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1073,6 +1073,11 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
+                action = record.action
+                if record.task_name not in self.session:
+                    # The task was removed during its run
+                    self.session._log_removed(record)
+                    continue
                 task = self.session[record.task_name]
                 if record.action == "success":
                     # Another task finished during the setup: its
@@ -1086,8 +1091,6 @@ class Task(RedBase, BaseModel):
                     # so we ignore logging errors until that's sure
                     err = exc
 
-                action = record.action
-
         if err is not None:
             raise err
 
diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..d29dbd6 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -438,6 +438,11 @@ class Session(RedBase):
             task = self[task]
         self.tasks.remove(task)
 
+    def _log_removed(self, record):
+        "Log a record of a (process) task that is no longer in the session"
+        record.__dict__.pop("__return__", None)
+        logging.getLogger(self.config.task_logger_basename).handle(record)
+
     def task_exists(self, task: 'Task'):
         warnings.warn((
             "Method task_exists will be removed in the future version."
-- 
2.43.0


From 3b53b014b3447cd2851b5ee41061b6d34fbf23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 24/44] fix: a task added under an existing name is renamed
 instead of dropped if so configured

---
 rocketry/session.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index d29dbd6..0f5479e 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -426,6 +426,10 @@ class Session(RedBase):
                 self.tasks.add(task)
             elif if_exists == 'raise':
                 raise KeyError(f"Task '{task.name}' already exists")
+            elif if_exists == 'rename' and task not in self.tasks:
+                task.session = self
+                task.name = task.name # A free name is picked
+                self.tasks.add(task)
         else:
             self.tasks.add(task)
 
-- 
2.43.0


From 30adcfb270ed62d0a668b0cf55fd4c72fe3d008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 25/44] fix: running tasks by hand works if they create tasks

---
 rocketry/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 0f5479e..062403d 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -310,7 +310,8 @@ class Session(RedBase):
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
             for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+                # (tasks created during the run have nothing to set back)
+                task.__dict__.update(orig_vals.get(task.name, {}))
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From d9ae50fa63a6e897dda4adf9d342ccecb9d807a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 26/44] fix: a task uses the init hooks and naming of its own
 session

---
 rocketry/core/task.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5402c6e..f55985f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -304,12 +304,13 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
-
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
             kwargs['session'] = _create_session()
+
+        hooker = _Hooker(kwargs['session'].hooks.task_init)
+        hooker.prerun(task=self)
+
         kwargs['name'] = self._get_name(**kwargs)
 
         if "permanent_task" in kwargs:
@@ -333,7 +334,7 @@ class Task(RedBase, BaseModel):
 
     def _get_name(self, name=None, **kwargs):
         if name is None:
-            use_instance_naming = self.session.config.use_instance_naming
+            use_instance_naming = kwargs['session'].config.use_instance_naming
             if use_instance_naming:
                 return id(self)
             return self.get_default_name(**kwargs)
-- 
2.43.0


From 562ab828e68e3beb38f515a60fc367e395d11ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 27/44] fix: a process that dies in its setup is one failed run
 and is not waited for

---
 rocketry/core/task.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f55985f..5f5db30 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -747,7 +747,7 @@ class Task(RedBase, BaseModel):
         process.start()
         self._mark_running = False
 
-        self._lock_to_run_log(log_queue)
+        self._lock_to_run_log(log_queue, task_run)
         return log_queue
 
     def _run_as_process(self, params:Parameters, direct_params:Parameters, task_run, queue, config, exec_hooks):
@@ -1052,7 +1052,7 @@ class Task(RedBase, BaseModel):
                 self.log_termination(reason=reason, task_run=run)
 
 # Logging
-    def _lock_to_run_log(self, log_queue):
+    def _lock_to_run_log(self, log_queue, task_run:TaskRun):
         "Handle next run log to make sure the task started running before continuing (otherwise may cause accidential multiple launches)"
         action = None
         timeout = 10 # Seconds allowed the setup to take before declaring setup to crash
@@ -1067,9 +1067,8 @@ class Task(RedBase, BaseModel):
             try:
                 record = log_queue.get(block=True, timeout=timeout)
             except Empty:
-                if not self.is_alive():
+                if not task_run.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
-                    self.logger.critical(f"Task '{self.name}' crashed in setup", extra={"action": "fail"})
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
             else:
 
-- 
2.43.0


From 1daf6b9f4b16eb0321ea708a3ccbac34506d58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:37 +0000
Subject: [PATCH 28/44] fix: a process task that cannot be pickled is logged as
 one failed run

---
 rocketry/core/task.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5f5db30..eaffae0 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1345,8 +1345,6 @@ class Task(RedBase, BaseModel):
                 #       - There is another func with same name in the file
                 #       - The function is lambda or decorated func
                 unpicklable = {key: val for key, val in state.items() if not is_pickleable(val)}
-                self.log_running()
-                self.logger.critical(f"Task '{self.name}' crashed in pickling. Cannot pickle: {unpicklable}", extra={"action": "fail", "task_name": self.name})
                 raise PicklingError(f"Task {self.name} could not be pickled. Cannot pickle: {unpicklable}")
             # Is pickled by something else than task execution
             return state
-- 
2.43.0


From d2bc1e987d620039c6ecd9a2970580e876680bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:19 +0000
Subject: [PATCH 29/44] fix: 'has ... this week starting Mon' covers the whole
 cycle, not a day

---
 rocketry/time/construct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/time/construct.py b/rocketry/time/construct.py
index 9685ce4..564caf0 100644
--- a/rocketry/time/construct.py
+++ b/rocketry/time/construct.py
@@ -50,4 +50,6 @@ def get_on(type_, start):
 def get_full_cycle(type_, start=None):
     type_ = type_.lower()
     cls = TIME_CLASSES[type_]
-    return cls(start, start)
+    if start is None:
+        return cls()
+    return cls.starting(start)
-- 
2.43.0


From 6557cf95f0e7b388606f743f6933d879a469e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:19 +0000
Subject: [PATCH 30/44] fix: param conditions look at the session they are
 observed in and at whole names

---
 rocketry/conditions/parameter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..acc1912 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -82,8 +82,9 @@ class ParamExists(BaseCondition):
         self.param_keys = args
         self.param_values = kwargs
 
-    def __bool__(self):
-        params = self.session.parameters
+    def get_state(self, session=Session(default=None)):
+        session = self.session if session is None else session
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
@@ -97,6 +98,9 @@ class ParamExists(BaseCondition):
 
     @classmethod
     def _from_list(cls, l:Union[tuple, list]):
+        if isinstance(l, str):
+            # From a string such as "param 'x', 'y' exists"
+            l = re.split(r"'\s*,\s*'", l)
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From b70cdba885d1803e74f012ea3ac900c541b57e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:57 +0000
Subject: [PATCH 31/44] fix: quarters of an hour start at full quarters

'first quarter' was anchored a microsecond early and '0 quarter' raised an error.
---
 rocketry/time/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index 605da52..f34f3f1 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -106,7 +106,7 @@ class TimeOfHour(AnchoredInterval):
         if res:
             # ie. "1 quarter"
             n_quarters = int(res["n"])
-            return (self._scope_max + 1) / 4 * n_quarters - 1
+            return self._scope_max // 4 * n_quarters
         raise ValueError(f"Invalid value: {repr(s)}")
 
 @dataclass(frozen=True, init=False)
-- 
2.43.0


From a8c0227f88a42b77222c89d896b61160f07eebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:10 +0000
Subject: [PATCH 32/44] fix: arguments given to a custom condition override
 those of its signature

Giving a value to a parameter whose default is an argument (ie. Arg) raised TypeError.
---
 rocketry/conditions/func.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/conditions/func.py b/rocketry/conditions/func.py
index 213f12b..0992d45 100644
--- a/rocketry/conditions/func.py
+++ b/rocketry/conditions/func.py
@@ -1,5 +1,6 @@
 
 import copy
+import inspect
 from typing import Callable, List, Optional, Pattern, Union
 from rocketry.core.parameters.parameters import Parameters
 from rocketry.core.condition import BaseCondition
@@ -100,6 +101,9 @@ class FuncCond(BaseCondition):
 
     def observe(self, **kwargs) -> bool:
         func_params = Parameters._from_signature(self.func, **kwargs)
+        # The arguments given override those of the signature
+        given = inspect.signature(self.func).bind_partial(*self.args, **self.kwargs).arguments
+        func_params = Parameters({key: arg for key, arg in func_params.items() if key not in given})
         param_dict = func_params.materialize(**kwargs)
         return self.get_state(*self.args, **self.kwargs, **param_dict)
 
-- 
2.43.0


From 0d7b692e64821b0969a115e846085c6ad1c71175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:10 +0000
Subject: [PATCH 33/44] fix: register a TaskCond with a function to the session
 given

---
 rocketry/conditions/meta.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index d12c585..2f0fc43 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -91,12 +91,11 @@ class TaskCond(BaseCondition):
         self.active_time = parse_time(active_time, session=session)
 
         self.kwds_task = kwargs
+        self.session = session
 
         if self.func is not None:
             self._set_parsing()
 
-        self.session = session
-
     def _set_task(self, *args, **kwargs) -> 'TaskCond':
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
-- 
2.43.0


From c306ee5734989d9206f94cb4d4dc2b926b87340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:10 +0000
Subject: [PATCH 34/44] fix: allow a TaskCond to be used with different
 parameters

Only one could be used as the check tasks all had the same name.
---
 rocketry/conditions/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index 2f0fc43..a782951 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -99,11 +99,15 @@ class TaskCond(BaseCondition):
     def _set_task(self, *args, **kwargs) -> 'TaskCond':
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
+        name = f"_condition-{self._get_func_name(self.func)}"
+        if kwargs:
+            # There may be several with different parameters
+            name += f"({', '.join(f'{key}={val!r}' for key, val in kwargs.items())})"
 
         new_self.task = _FuncTaskCondWrapper(
             func=self.func,
             #on_exists="rename",
-            name=f"_condition-{self._get_func_name(self.func)}",
+            name=name,
             parameters=kwargs,
             session=self.session,
             **self.kwds_task
-- 
2.43.0


From e37bba23633874c58cd53ba9c1720ca63fd45a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 35/44] fix: fixed periods (also always) can be used with a
 timezone

Checking whether an aware datetime is in a StaticInterval raised TypeError.
---
 rocketry/core/time/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index bde9931..ec4e049 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -511,18 +511,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            begin = to_datetime(self.min, timezone=tz)
+            return Interval(begin, begin)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            finish = to_datetime(self.max, timezone=tz)
+            return Interval(finish, finish)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
-- 
2.43.0


From a4bb91add8fe4a4cfc025868956a27d5cd15f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 36/44] fix: run times without an upper limit can be used with
 a timezone

running.more_than(...) and scheduler_running(...) raised TypeError if the session had a timezone.
---
 rocketry/time/delta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..69749e4 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from typing import Callable, Union
 
 from rocketry.core.time import TimeDelta
-from rocketry.pybox.time import to_timedelta, Interval
+from rocketry.pybox.time import to_datetime, to_timedelta, Interval
 
 @dataclass(frozen=True, init=False)
 class TimeSpanDelta(TimeDelta):
@@ -27,23 +27,23 @@ class TimeSpanDelta(TimeDelta):
         "Check whether the dt is period"
         reference = self.get_reference()
         if reference >= dt:
-            start = reference - self.far if self.far is not None else self.min
+            start = reference - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
             end = reference - self.near
         else:
             start = reference + self.near
-            end = reference + self.far if self.far is not None else self.max
+            end = reference + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return start <= dt <= end
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 64a0d0fd20e5fa65f8f1395975a769a439c959e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 37/44] fix: the condition of a running task can be used with a
 timezone

It raised TypeError if a task was running and the session had a timezone.
---
 rocketry/core/time/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..0b64c6e 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -3,6 +3,7 @@ import time
 import datetime
 from typing import Tuple
 
+from rocketry.pybox.time import to_datetime
 from .base import TimePeriod
 
 def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetime, datetime.datetime]:
@@ -11,7 +12,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return to_datetime(TimePeriod.min, timezone=tz), to_datetime(TimePeriod.max, timezone=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
-- 
2.43.0


From 8b157b6f912fe17e246fee07f0886fe7752636d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:23 +0000
Subject: [PATCH 38/44] fix: running given tasks by hand runs exactly them, not
 the pending runs of others

---
 rocketry/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 062403d..376ab87 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -294,13 +294,14 @@ class Session(RedBase):
                 attr: val for attr, val in task.__dict__.items()
                 if attr not in ("status", "last_run", "last_success", "last_fail", "last_terminate")
             }
-            if name in task_names:
+            if name in task_names or task in task_names:
                 if not obey_cond:
                     task.run()
                 if execution is not None:
                     task.execution = execution
             else:
                 task.disabled = True
+                task.batches = [] # Only the given are run, pending runs stay pending
 
         orig_shut_cond = self.config.shut_cond
         try:
-- 
2.43.0


From 80652a6beb9b35193354860521b2f98363842e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:15 +0000
Subject: [PATCH 39/44] fix: a startup or shutdown task that is to be run
 anyway gets no further pending run

---
 rocketry/core/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index d182cc7..88c742a 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -323,7 +323,7 @@ class Scheduler(RedBase):
                     raise
             
             if task.on_startup:
-                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
+                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled and not task.batches:
                     # Make sure the tasks run if start_cond not set
                     task.run()
 
@@ -351,7 +351,7 @@ class Scheduler(RedBase):
         for task in self.tasks:
             if task.on_shutdown:
 
-                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
+                if isinstance(task.start_cond, AlwaysFalse) and not task.disabled and not task.batches:
                     # Make sure the tasks run if start_cond not set
                     task.run()
 
-- 
2.43.0


From b09a1b2e810e5a5d84a96371f05cbd81d1449273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 40/44] fix: counts can be compared with numbers that are not
 integers

---
 rocketry/core/condition/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1698377..a3a04fe 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -1,3 +1,4 @@
+import operator
 from copy import copy
 from abc import abstractmethod
 from typing import Callable, Dict, Pattern, Union
@@ -283,7 +284,7 @@ class BaseComparable(BaseCondition):
         if not compares:
             return res > 0
         return all(
-            getattr(res, comp)(val) # Comparison is magic method (==, !=, etc.)
+            getattr(operator, comp)(res, val) # Comparison is magic method (==, !=, etc.)
             for comp, val in compares.items()
         )
 
-- 
2.43.0


From 2102641676ce409a28220df146831a1432021f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:05 +0000
Subject: [PATCH 41/44] fix: the parameters of a run are not left in the
 command of a task

---
 rocketry/tasks/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..8377a52 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,8 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                # NOTE: self.command must not be changed
+                command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 9d8a7f8ef9c035c36e3056d6eac94b9602e049a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:05 +0000
Subject: [PATCH 42/44] fix: parameters that are not strings can be passed to a
 command given as a list

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 8377a52..9f00c55 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -80,7 +80,7 @@ class CommandTask(Task):
                 command += f" {param} \"{val}\""
             else:
                 # NOTE: self.command must not be changed
-                command = command + [param] + [val]
+                command = command + [param, str(val)]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From c5a5a8a1afca2dfb0e13cdf1a69c365214aaf6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:05 +0000
Subject: [PATCH 43/44] fix: the arguments of a command are in long form also
 by default

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 9f00c55..2b09740 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From b1ff3415bfa1689e204b242ebae48ab08e24090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:05 +0000
Subject: [PATCH 44/44] fix: a command task can have a timeout

---
 rocketry/tasks/command.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 2b09740..7d3febe 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -84,8 +85,10 @@ class CommandTask(Task):
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
+        has_timeout = self.timeout not in (None, datetime.timedelta.max)
+        timeout = self.timeout.total_seconds() if has_timeout else None
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0

