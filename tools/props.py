LEVEL_NOTE = ("bounded: the functions named in the evidence are executed symbolically from /repo's current source; Z3 decides every "
              "branch and assertion for all values within the stated bounds; nothing is claimed outside them")
NOT_APPLICABLE = []
PROPS = [
dict(id="C01", title="An instant belongs to a clock or calendar period exactly as documented",
     statement="For every time of second/minute/hour/day/week/month/year period built from documented bounds (between, before, after, "
               "at a point, starting from, whole cycle), an instant belongs to it exactly when its place in the cycle is at or after the "
               "start and before the end, with the cycle wrapping around when the start is later than the end. An end given as a unit "
               "(an hour number, a week day, a day of month, a month) includes that whole unit; equal start and end mean the whole cycle.",
     over=["inputs"], quant="every instant (microsecond resolution, years 2001-2098) and every documented bound of every period type",
     why="membership depends on the bound, form, wrapping, month length and leap year at once; tests sample a few instants per period",
     files=["rocketry/time/interval.py", "rocketry/core/time/anchor.py"],
     mech=[("membership of an instant", "rocketry/core/time/anchor.py AnchoredInterval.__contains__"),
           ("bounds to positions in the cycle", "rocketry/time/interval.py anchor_int/anchor_str/anchor_dt")]),
dict(id="C02", title="Rolling a period finds the nearest occurrence, without gaps or overreach",
     statement="Rolling a period forwards from an instant gives the ongoing remainder or the next occurrence, and rolling it backwards "
               "gives the ongoing part so far or the previous occurrence. No instant of the period lies between the instant and the "
               "occurrence found, every instant of the occurrence belongs to the period, and an occurrence never spans more than one cycle.",
     over=["inputs"], quant="every reference instant and every period form, including wrapping periods, short months and leap years",
     why="errors appear only at particular bounds, instants and month lengths; a wrong occurrence shifts when tasks run",
     files=["rocketry/core/time/base.py", "rocketry/core/time/anchor.py", "rocketry/time/interval.py"],
     mech=[("rolling", "rocketry/core/time/base.py TimeInterval.rollforward/rollback"),
           ("edges", "rocketry/core/time/anchor.py next_start/next_end/prev_start/prev_end")]),
dict(id="C03", title="Combined periods are the intersection and union of their members",
     statement="An instant belongs to periods combined with 'and' exactly when it belongs to all of them and with 'or' when it belongs "
               "to any of them, however they are nested. Rolling a combined period gives an occurrence whose instants all belong to the "
               "combination, with no instant of the combination skipped on the way.",
     over=["inputs", "configurations"], quant="every pair/triple of periods of the listed types, every bound and instant within 2024-2025",
     why="the result depends on how several cyclic ranges fall relative to each other at the instant",
     files=["rocketry/core/time/base.py", "rocketry/pybox/time/interval.py"],
     mech=[("intersection", "rocketry/core/time/base.py All"), ("union", "rocketry/core/time/base.py Any"),
           ("range algebra", "rocketry/pybox/time/interval.py Interval")]),
dict(id="C05", title="A cron expression matches exactly the minutes cron semantics give",
     statement="An instant belongs to a cron period exactly when its minute, hour, month and day fields match (values, ranges, lists, "
               "steps, names), where giving both day fields means either may match. Rolling a cron period gives a slot of at most one "
               "minute, cut at full minutes, with no matching minute skipped.",
     over=["inputs", "configurations"], quant="every instant of 2024-2025 and every field value in the supported grammar",
     why="five fields times several forms times calendar; tests sample a dozen expressions",
     files=["rocketry/time/cron.py", "rocketry/time/interval.py", "rocketry/core/time/base.py"],
     mech=[("fields to periods", "rocketry/time/cron.py Cron._get_period_from_expr"), ("day rule", "rocketry/time/cron.py Cron.get_subperiod")]),
dict(id="C06", title="Durations given as text or numbers are the sum of their parts",
     statement="A duration given as text (parts of a number, possibly with decimals, and a unit name, in any order and spacing, optional signs in "
               "front, an hh:mm:ss part) has exactly the length of its parts together. A number is counted in its unit, and the timeouts and time "
               "windows set with a duration have that length.",
     over=["inputs"], quant="every number in the digit bounds, every supported unit name, 1-3 parts, separators and signs",
     why="a misread unit or part silently changes how often tasks run; tests sample some strings",
     files=["rocketry/pybox/time/convert.py", "rocketry/core/time/base.py", "rocketry/time/delta.py", "rocketry/core/task.py"],
     mech=[("text to duration", "rocketry/pybox/time/convert.py string_to_timedelta"), ("number to duration", "rocketry/pybox/time/convert.py numb_to_timedelta")]),
dict(id="C07", title="Conditions combine with &, | and ~ as boolean logic",
     statement="A condition built of others with and, or and not is true exactly when its boolean expression is, for every truth of the parts at each "
               "observation. Written as text the operators bind as in Python (not before and before or, parentheses first), and combining conditions "
               "does not alter the combined ones.",
     over=["inputs", "configurations"], quant="every expression shape in the bounds and every assignment of truth values",
     why="the parser assembles nested lists by position; only some shapes are tested",
     files=["rocketry/core/condition/base.py", "rocketry/parse/utils/string_parser.py", "rocketry/pybox/string/parse/closure.py"],
     mech=[("logic", "rocketry/core/condition/base.py All/Any/Not"), ("text", "rocketry/parse/utils/string_parser.py InstructionParser")]),
dict(id="C08", title="History conditions count the task's records in the period",
     statement="A condition on whether a task has started, succeeded, failed, finished, terminated or inacted in a period is true exactly when "
               "the number of such records of that task within the period meets every comparison given (more than none, if none is given). "
               "The answer is the same from remembered statuses and from the log, and comparing a condition does not alter it.",
     over=["histories", "inputs"], quant="every history, period, instant and comparison in the bounds, cached or read from the log",
     why="shortcuts on remembered statuses must agree with the log for every history and comparison",
     files=["rocketry/conditions/task/utils.py", "rocketry/conditions/task/task.py", "rocketry/core/condition/base.py", "rocketry/core/time/utils.py"],
     mech=[("counting", "rocketry/conditions/task/utils.py TaskStatusMixin"), ("comparison", "rocketry/core/condition/base.py BaseComparable")]),
dict(id="C09", title="A periodic task is startable once per occurrence of its period",
     statement="A minutely, hourly, daily, weekly or monthly task (optionally between, before, after or at given times) is startable exactly when now is in the "
               "period and the task has not succeeded, inacted or been terminated in the ongoing occurrence, nor failed more often than its retries. "
               "A cron task is startable exactly when the minute matches and it has not started in that minute.",
     over=["histories", "inputs"], quant="every instant, period bound and history in the bounds, cached or read from the log",
     why="the core scheduling promise: missed or doubled runs appear only for particular histories around period edges",
     files=["rocketry/conditions/task/task.py", "rocketry/conditions/api.py", "rocketry/core/time/base.py", "rocketry/core/time/utils.py"],
     mech=[("periodic", "rocketry/conditions/task/task.py TaskExecutable"), ("cron", "rocketry/conditions/task/task.py TaskRunnable")]),
dict(id="C10", title="A task run every X is startable once X has passed",
     statement="A task scheduled every X is not startable while its latest run (or success, failure or finish, if so based) is less than X old, and is "
               "startable when it is older than X or there is none.",
     over=["histories", "inputs"], quant="every interval length, history and instant in the bounds, cached or read from the log",
     why="interval arithmetic against any history; tests sample a few ages",
     files=["rocketry/conditions/api.py", "rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", "rocketry/core/time/base.py"],
     mech=[("interval", "rocketry/conditions/api.py every"), ("window", "rocketry/core/time/base.py TimeDelta")]),
dict(id="C12", title="A dependent task is startable once per end of the task it follows",
     statement="A task set to start after another succeeds, fails or finishes (succeeds or fails) is startable exactly when that task has so ended later than "
               "the dependent task last started. With several tasks, all or any of them must have so ended.",
     over=["histories", "inputs"], quant="every pair or triple of histories in the bounds, every after form of the API and the text syntax",
     why="depends on the order of the latest records of several tasks",
     files=["rocketry/conditions/task/utils.py", "rocketry/conditions/task/task.py", "rocketry/conditions/api.py"],
     mech=[("dependence", "rocketry/conditions/task/utils.py DependMixin")]),
dict(id="C13", title="A failed task is retried at most the given number of times in a row",
     statement="The retry condition of n is true exactly when the latest run of the task failed and there are at most n failures since its latest end of "
               "another kind (success, inaction, termination or crash); without a number it is true after every failure.",
     over=["histories", "inputs"], quant="every history of the bounds and every n",
     why="counts consecutive failures over arbitrary histories",
     files=["rocketry/conditions/task/task.py", "rocketry/conditions/api.py"],
     mech=[("retry", "rocketry/conditions/task/task.py Retry")]),
dict(id="C15", title="Running conditions count live runs by how long they have run",
     statement="A running condition (optionally more than, less than or between durations, optionally compared with a number) is about exactly the runs of the "
               "task that are alive now and have run that long, whether known from memory or read from the log.",
     over=["histories", "inputs"], quant="every set of runs, ends, durations and comparisons in the bounds",
     why="a run's end may fall anywhere relative to the window looked at",
     files=["rocketry/conditions/task/task.py", "rocketry/conditions/api.py", "rocketry/time/delta.py", "rocketry/core/time/utils.py"],
     mech=[("running", "rocketry/conditions/task/task.py TaskRunning"), ("window", "rocketry/time/delta.py TimeSpanDelta")]),
dict(id="C29", title="Text conditions mean what their words say",
     statement="Every documented text form (time of ... between/before/after/on, hourly/daily/weekly/monthly with between/before/after/starting/on, has "
               "succeeded/failed/started/... this hour/today/this week/this month or in the past duration, number of scheduler cycles and time since scheduler "
               "start, constants, env) is true exactly when its words hold for the given times, history and instant.",
     over=["inputs", "histories"], quant="every clock time, week day, day, duration, history and instant in the bounds for every form",
     why="many near-identical forms dispatch by pattern order; a slip in one form changes schedules silently",
     files=["rocketry/parse/_setup_cond_parsers.py", "rocketry/time/construct.py", "rocketry/time/__init__.py", "rocketry/conditions/scheduler.py"],
     mech=[("forms", "rocketry/parse/_setup_cond_parsers.py"), ("period forms", "rocketry/time/__init__.py")]),
dict(id="C25", title="With a timezone everything goes by the clock of that zone",
     statement="When the session has a timezone, every time and history condition is as it would be without one on a computer whose clock shows the time of that "
               "zone; the times that tasks tell are those of the zone and the same instants as recorded; how long runs and the scheduler have been on, and periods "
               "between fixed datetimes, do not depend on the zone.",
     over=["inputs", "configurations", "histories"], quant="every fixed offset, instant and history in the bounds for each kind of condition",
     why="the same instant is another date, week or month in another zone; tests check one offset at a few instants",
     files=["rocketry/session.py", "rocketry/core/time/base.py", "rocketry/core/time/utils.py", "rocketry/time/delta.py", "rocketry/conditions/task/utils.py"],
     mech=[("time of the session", "rocketry/session.py Session._format_timestamp"), ("spans", "rocketry/core/time/utils.py get_period_span")]),
dict(id="C30", title="A custom condition is what its function says",
     statement="A condition made of a function is at each observation what the function returns when called once with the arguments given (by position or keyword, "
               "or from the groups of a text syntax) and, for the others, the defaults with argument objects taken at that observation for the observing task. "
               "Uses with different arguments are independent. A condition checked by a task is the value of its latest successful check, false before any and once "
               "that is older than the active time.",
     over=["inputs", "histories"], quant="every argument and argument-object value, changes between observations, and every outcome and time of the checks",
     why="depends on the way of the call, on values changing between observations and on when each check ended",
     files=["rocketry/conditions/func.py", "rocketry/conditions/meta.py", "rocketry/core/parameters/parameters.py", "rocketry/parse/_condition/condition_item.py"],
     mech=[("function", "rocketry/conditions/func.py FuncCond.observe"), ("check as a task", "rocketry/conditions/meta.py TaskCond.get_state")]),
dict(id="C16", title="A cycle starts exactly the tasks that are due and may run",
     statement="In each cycle a task is started, at most once, exactly when its start condition holds and it is enabled, or a forced run is pending (also if "
               "disabled), unless it is on hold or already running without parallel runs being allowed. Each forced run is consumed by exactly one start and "
               "that start gets the parameters given to it, in order.",
     over=["schedules", "histories"], quant="every state of conditions, holds, disabling, forced runs and ends of executions in each cycle of the bounds",
     why="depends on the interleaving of cycles, requests and the ends of runs",
     files=["rocketry/core/schedule.py", "rocketry/core/task.py"],
     mech=[("starting", "rocketry/core/schedule.py run_cycle/run_task/is_task_runnable"), ("runnable", "rocketry/core/task.py is_runnable"),
           ("forced runs", "rocketry/core/task.py run/batches")]),
dict(id="C17", title="Process limit is never exceeded and priority decides the order",
     statement="There are never more executing processes than the maximum configured, a due process task that is left out is started when there is room, and "
               "other execution types are not held back by the limit. The tasks started in a cycle are started in descending order of priority.",
     over=["schedules", "configurations"], quant="every priority assignment, limit, state of conditions and ends of executions in the bounds",
     why="depends on how many runs are alive when each task is looked at",
     files=["rocketry/core/schedule.py", "rocketry/session.py", "rocketry/core/task.py"],
     mech=[("limit", "rocketry/core/schedule.py has_free_processors"), ("order", "rocketry/session.py tasks / rocketry/core/schedule.py run_cycle")]),
dict(id="C18", title="Every run has one start record and one matching end record",
     statement="Each run leaves exactly one start record and, once ended, exactly one end record with the same run id, telling how it ended (success, "
               "failure, termination, inaction) and when that run began and ended. The status and latest times of a task are those of its latest records. This holds "
               "for every execution type, for runs in parallel and for failures before the execution.",
     over=["schedules", "histories", "faults"], quant="every order and time of starts and ends of the runs in the bounds, each execution type",
     why="records of parallel runs, threads and processes arrive in any order",
     files=["rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/core/log/adapter.py"],
     mech=[("records", "rocketry/core/task.py log_running/log_success/_set_status"), ("process records", "rocketry/core/schedule.py handle_logs"),
           ("cached status", "rocketry/core/task.py _set_status")]),
dict(id="C19", title="Runs are terminated when due and only then",
     statement="A live run is terminated in a cycle exactly when it has run longer than its timeout (its own, else the configured one), its end condition holds, or "
               "termination was asked for; permanently running tasks have no timeout. Each terminated run is recorded as terminated once, other runs are left alone, and a run that "
               "already ended is not terminated.",
     over=["schedules", "inputs"], quant="every start time, timeout, instant of a cycle, state of the end condition and request in the bounds",
     why="the timeout is compared per run, with several runs alive at any ages",
     files=["rocketry/core/schedule.py", "rocketry/core/task.py"],
     mech=[("deciding", "rocketry/core/task.py _check_termination"), ("runs", "rocketry/core/task.py _terminate_run/_clean_run_stack/TaskRun")]),
dict(id="C20", title="A fault of one task does not stop the others",
     statement="A failing function or argument is recorded as a failure of that task and the scheduler goes on. A failing condition or log storage is treated as "
               "configured: silenced, the other tasks are run as if nothing happened; otherwise the scheduler stops with that error.",
     over=["faults", "schedules"], quant="every place and cycle of the fault, execution type, order of tasks and state of the other task in the bounds",
     why="faults at each step of each execution type; tests inject a few",
     files=["rocketry/core/schedule.py", "rocketry/core/task.py", "rocketry/core/log/adapter.py"],
     mech=[("silencing", "rocketry/core/schedule.py check_task_cond/run_task"), ("failures", "rocketry/core/task.py _run_as_*")]),
dict(id="C21", title="Shutting down ends every run and starts nothing more",
     statement="After a shut down is asked for (by call, condition or fatal error) no task is started, running tasks are let to finish unless the shut down is "
               "forced, asked twice, immediate by configuration or caused by an error, in which case they are terminated. The scheduler ends only once "
               "nothing runs, every run has its end record, and a later session is not affected.",
     over=["schedules", "faults"], quant="every way of asking, execution type, and time and way of the runs ending in the bounds",
     why="depends on what is running and when it ends relative to the shut down",
     files=["rocketry/core/schedule.py", "rocketry/session.py"],
     mech=[("shut down", "rocketry/core/schedule.py shut_down/wait_task_alive/_shut_down_tasks"), ("asking", "rocketry/session.py shut_down")]),
dict(id="C22", title="On startup the past is read from the log and lost runs are crashes",
     statement="When the scheduler starts, the status and latest times of each task are those of its log. A task whose latest record is an unended run gets exactly "
               "one crash record with that run's id, is no longer regarded as running and starting again adds none; other tasks get none.",
     over=["crashes", "histories"], quant="every history of the bounds, possibly cut short at any record, with any number of restarts in the bounds",
     why="a crash may cut the log at any point of any history",
     files=["rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/log/log_record.py"],
     mech=[("reading", "rocketry/core/task.py set_cached"), ("crash", "rocketry/core/task.py log_crash")]),
dict(id="C23", title="A parameter gets the value of the most specific level",
     statement="Each parameter of the task function gets the value given for the run, else for the task, else in the function's own signature arguments, else for the session, else the "
               "plain default, in every execution type. Argument objects (function, session, piped) are evaluated per run, and values of one run do not leak to the next.",
     over=["inputs", "configurations"], quant="every set of levels, form and value of each parameter in the bounds",
     why="levels, argument kinds and execution types multiply far beyond the tests",
     files=["rocketry/core/task.py", "rocketry/core/parameters/parameters.py", "rocketry/tasks/func.py", "rocketry/args/builtin.py"],
     mech=[("levels", "rocketry/core/task.py get_task_params/prefilter_params"), ("arguments", "rocketry/core/parameters/parameters.py materialize")]),
dict(id="C24", title="A return argument is the latest value that task returned",
     statement="A parameter that refers to the return value of a task gets the value of the latest successful run of that task, whatever the execution types of both "
               "and however the task is referred to. Runs that did not succeed do not change it; without any value the given default is used, and "
               "with neither the run fails.",
     over=["histories", "schedules"], quant="every order and end of the producing runs, every value, execution types and point of use in the bounds",
     why="values of processes arrive over a queue, in any order relative to other starts and ends",
     files=["rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/args/builtin.py"],
     mech=[("storing", "rocketry/core/task.py _handle_return"), ("from processes", "rocketry/core/schedule.py handle_logs"), ("argument", "rocketry/args/builtin.py Return")]),
dict(id="C26", title="A session has exactly the tasks put to it, each under a name of its own",
     statement="After creating, adding, including, renaming and removing tasks the session has exactly those put and not removed, found by their names, with existing names treated "
               "as configured (refused, kept or renamed to a free name) and without changing the tasks already there. A task created while the scheduler runs is scheduled from then "
               "on, and one removed is not started again but its current run ends and is recorded as any other.",
     over=["histories", "schedules"], quant="every sequence of operations, name and configuration in the bounds; every time of removal relative to the run",
     why="operations interact over their whole history and with what runs meanwhile",
     files=["rocketry/session.py", "rocketry/core/task.py", "rocketry/application.py", "rocketry/core/schedule.py"],
     mech=[("adding", "rocketry/session.py create_task/add_task/remove_task"), ("names", "rocketry/core/task.py parse_name"), ("groups", "rocketry/application.py include_grouper")]),
dict(id="C27", title="Hooks run around exactly what they are hooked to",
     statement="Each hook to the creation of tasks, to the start up, to the cycles and the shut down of the scheduler and to the execution of tasks is called exactly once per "
               "such event, in the order added, before it happens, and the rest of a generator hook after it, being told the outcome of an execution. Hooks of one session "
               "are not called for another.",
     over=["schedules", "faults"], quant="every number and kind of hooks, execution type, way of the run ending and number of cycles in the bounds",
     why="kinds of hooks, events, execution types and ends multiply; tests sample a few",
     files=["rocketry/core/hook.py", "rocketry/core/task.py", "rocketry/core/schedule.py", "rocketry/session.py"],
     mech=[("calling", "rocketry/core/hook.py"), ("scheduler events", "rocketry/core/schedule.py"), ("execution", "rocketry/core/task.py _run_as_async")]),
dict(id="C28", title="Startup and shutdown tasks and runs by hand",
     statement="Enabled tasks set on startup are run once before anything else when the scheduler starts and those set on shutdown once when it shuts down, however it ends, unless "
               "their own start condition is false; each in the order of priority and not in the cycles between. Running tasks by hand runs exactly the named ones (regardless of their conditions unless these are to be obeyed) "
               "and leaves the settings of all tasks as they were.",
     over=["schedules", "configurations"], quant="every set of tasks, their settings, conditions, execution types and ends in the bounds",
     why="depends on what else is due, disabled or running at start up and shut down",
     files=["rocketry/core/schedule.py", "rocketry/session.py"],
     mech=[("startup and shutdown", "rocketry/core/schedule.py startup/shut_down"), ("by hand", "rocketry/session.py run")]),
dict(id="C31", title="A command or code task runs what it is given, with its parameters",
     statement="A command task executes exactly its command followed by each parameter of the task and of that run as an option (long form unless set otherwise) and its value, as set in its "
               "directory and shell, whatever earlier runs had. It succeeds with the output exactly when the command exits with zero within the task's own timeout; otherwise it fails, and "
               "a command over its timeout is killed. A code task runs its code with its parameters as variables, returns its output variable (nothing, if not set) and keeps nothing from earlier runs.",
     over=["inputs", "histories"], quant="every set and value of parameters, exit code, time taken, timeout and sequence of runs in the bounds",
     why="parameters, forms and earlier runs multiply; tests run a command once",
     files=["rocketry/tasks/command.py", "rocketry/tasks/code.py", "rocketry/core/task.py"],
     mech=[("command", "rocketry/tasks/command.py execute"), ("code", "rocketry/tasks/code.py execute"), ("parameters", "rocketry/core/task.py _run_as_async")]),
]
