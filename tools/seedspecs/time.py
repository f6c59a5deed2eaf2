SEEDS = [
dict(id="c01-midnight-bound", property="C01", file="rocketry/time/interval.py",
     old='''        ceil_time = not time and side == "end"
''',
     new='''        ceil_time = not time.strip("0:") and side == "end"
''',
     needs="a month period whose end is a day with the clock time midnight ('5th 00:00')",
     breaks="the whole closing day belongs to the period although the period ends at its beginning",
     demo='''
import datetime
from rocketry.time import TimeOfMonth
p = TimeOfMonth("2nd 10:00", "5th 00:00")
assert datetime.datetime(2024, 5, 4, 23, 59) in p
assert datetime.datetime(2024, 5, 5, 0, 0) not in p
assert datetime.datetime(2024, 5, 5, 12, 0) not in p
'''),
dict(id="c01-until-midnight", property="C01", file="rocketry/core/time/anchor.py",
     old='''        is_over_period = ms_start > ms_end # period is overnight, over weekend etc.
''',
     new='''        is_over_period = ms_start > ms_end and ms_end > 0 # period is overnight, over weekend etc.
''',
     needs="a period from some time until the very beginning of the cycle, such as from 22:00 to 00:00",
     breaks="nothing belongs to the period",
     demo='''
import datetime
from rocketry.time import TimeOfDay
p = TimeOfDay("22:00", "00:00")
assert datetime.datetime(2024, 5, 4, 23, 59) in p
assert datetime.datetime(2024, 5, 4, 0, 0) not in p
'''),
dict(id="c02-over-midnight", property="C02", file="rocketry/core/time/anchor.py",
     old='''    def rollend(self, dt):
        "Roll back to previous point in time that is on the period"
        if dt in self:
            return dt
''',
     new='''    def rollend(self, dt):
        "Roll back to previous point in time that is on the period"
        if dt in self and not (self._start > self._end and self.anchor_dt(dt) < self._start and dt.second == 59):
            return dt
''',
     needs="rolling an overnight period back in the last second of a minute after midnight",
     breaks="the ongoing occurrence is cut at the end of the previous one",
     demo='''
import datetime
from rocketry.time import TimeOfDay
t = datetime.datetime(2024, 5, 6, 1, 10, 59)
i = TimeOfDay("22:00", "02:00").rollback(t)
assert i.left == datetime.datetime(2024, 5, 5, 22) and i.right == t, i
'''),
dict(id="c02-cycle-edge", property="C02", file="rocketry/core/time/base.py",
     old='''            if end == start:
                # Expanding the interval
                start = self.prev_start(dt - self.resolution)
''',
     new='''            if end == start:
                # Expanding the interval
                start = self.prev_start(dt - datetime.timedelta(milliseconds=1500))
''',
     needs="rolling a one second full cycle back from exactly the first instant of a cycle",
     breaks="the occurrence before the previous one is included as well",
     demo='''
import datetime
from rocketry.time import TimeOfSecond
i = TimeOfSecond().rollback(datetime.datetime(2024, 5, 6, 12, 5, 7))
assert i.left == datetime.datetime(2024, 5, 6, 12, 5, 6), i
'''),
dict(id="c03-adjacent-only", property="C03", file="rocketry/core/time/base.py",
     old='''            period.rollforward(dt)
            for period in self.periods
        ]
        all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
''',
     new='''            period.rollforward(dt)
            for period in self.periods
        ]
        intervals.sort(key=lambda x: x.left)
        all_overlaps = all(a.overlaps(b) for a, b in zip(intervals, intervals[1:]))
''',
     needs="an intersection of three periods where the earliest occurrence is over before the last of them starts",
     breaks="occurrences that have no instant in common are taken as the next occurrence (and rolling fails)",
     demo='''
import datetime
from rocketry.time import TimeOfDay, TimeOfHour
q = TimeOfHour("00:00", "10:00") & TimeOfDay("09:05", "18:00") & TimeOfDay("09:20", "12:00")
i = q.rollforward(datetime.datetime(2024, 5, 6, 9, 2))
assert i.left == datetime.datetime(2024, 5, 6, 10, 0), i
'''),
dict(id="c03-equal-right", property="C03", file="rocketry/pybox/time/interval.py",
     old='''            right = self.right
            right_closed = self.closed in ('right', 'both') and other.closed in ('right', 'both')
''',
     new='''            right = self.right
            right_closed = self.closed in ('right', 'both') or other.closed in ('right', 'both')
''',
     needs="an intersection rolled to occurrences that end at the same instant which only one of them includes",
     breaks="the occurrence includes an instant that does not belong to the intersection",
     demo='''
from rocketry.pybox.time import Interval
i = Interval(1, 3, closed="both") & Interval(2, 3, closed="left")
assert 3 not in i, i
'''),
dict(id="c05-list-step", property="C05", file="rocketry/time/cron.py",
     old='''            if full_period is None:
                full_period = period
            else:''',
     new='''            if full_period is None or step is not None:
                full_period = period
            else:''',
     needs="a cron field that is a list with a stepped element after another one",
     breaks="the elements before the stepped one are dropped",
     demo='''
import datetime
from rocketry.time import Cron
p = Cron("7,40-50/5", "*")
assert datetime.datetime(2024, 5, 6, 7, 7, 30) in p
assert datetime.datetime(2024, 5, 6, 7, 45, 30) in p
assert datetime.datetime(2024, 5, 6, 7, 46, 30) not in p
'''),
dict(id="c05-dom-dow", property="C05", file="rocketry/time/cron.py",
     old='''            # Both specified: OR
            day_of_week_month = day_of_month | day_of_week
''',
     new='''            # Both specified: OR
            day_of_week_month = day_of_month | day_of_week if "," not in self.day_of_month else day_of_month
''',
     needs="both day fields given, the day of month as a list",
     breaks="the week days are ignored",
     demo='''
import datetime
from rocketry.time import Cron
p = Cron("*", "*", "1,15", "*", "Mon")
assert datetime.datetime(2024, 5, 6, 7, 7, 30) in p
assert datetime.datetime(2024, 5, 15, 7, 45, 30) in p
assert datetime.datetime(2024, 5, 7, 7, 46, 30) not in p
'''),
]
