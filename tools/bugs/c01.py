BUGS = [
dict(id="c01-leap400", property="C01", needs="a simulated date in a century year divisible by 400 (2000)",
  breaks="29 February 2000 is not treated as a leap day: the leap flag is off and day indices of the rest of 2000 are shifted by one",
  edits=[("pywr/_core.pyx", "return ((year & 3) == 0 and ((year % 25) != 0 or (year & 15) == 0))", "return ((year & 3) == 0 and (year % 25) != 0)")],
  demo='''
from pywr.timestepper import Timestepper
t = Timestepper("2000-02-27", "2000-03-02", 1); t.setup()
got = [(x.is_leap_year, x.dayofyear_index) for x in t]
assert got == [(True, 57), (True, 58), (True, 59), (True, 60), (True, 61)], got
'''),
dict(id="c01-restart-mid", property="C01", needs="restart on a date in the middle of a step longer than a day",
  breaks="a restart date lying inside a multi-day step (not on its first day) is refused although it is inside the simulated period",
  edits=[("pywr/timestepper.py", "if period.start_time <= start < period.end_time:", "if period.start_time <= start and start.dayofyear <= period.dayofyear:")],
  demo='''
import pandas as pd
from pywr.timestepper import Timestepper
t = Timestepper("2015-12-20", "2016-02-10", 7); t.setup()
t.reset(start=pd.Timestamp("2015-12-30"))
x = next(iter(t))
assert x.index == 1 and str(x.datetime.date()) == "2015-12-27", (x.index, x)
'''),
dict(id="c01-varlen", property="C01", needs="calendar-frequency steps whose lengths differ, restarted part-way",
  breaks="after a restart the first step takes the length of the first step of the run instead of its own",
  edits=[("pywr/timestepper.py", "self._periods[current_index], current_index, self._deltas[current_index]", "self._periods[current_index], current_index, self._deltas[0]")],
  demo='''
import pandas as pd
from pywr.timestepper import Timestepper
t = Timestepper("2015-01-01", "2015-12-31", "M"); t.setup()
t.reset(start=pd.Timestamp("2015-02-05"))
x = next(iter(t))
assert x.days == 28, x.days
'''),
]
