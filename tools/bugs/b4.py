H = '''
import numpy as np, pandas as pd, sys, os, json, warnings
from pywr.core import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.nodes import *
def chain(**kw):
    kw.setdefault("start", "2015-01-01"); kw.setdefault("end", "2015-01-10")
    m = Model(**kw)
    a, l, b = Input(m, "a", max_flow=10.0), Link(m, "l"), Output(m, "b", max_flow=5.0, cost=-10.0)
    a.connect(l); l.connect(b)
    return m, a, l, b
'''
PP, RR, CC = "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/_core.pyx"
BUGS = [
dict(id="c15-rbf-leap", property="C15", needs="a capped profile whose cap applies at the end of February, in a leap year",
  breaks="the 29th of February of a radial profile is not capped",
  edits=[(PP, "                self._interp_values[i] = v\n                self._interp_values[i+1] = v\n", "                self._interp_values[i] = v\n                self._interp_values[i+1] = values[i]\n")],
  demo=H + '''
m, a, l, b = chain(start="2016-02-27", end="2016-03-02")
p = RbfProfileParameter(m, [1, 60, 200], [1.0, 9.0, 2.0], max_value=4.0)
r = NumpyArrayParameterRecorder(m, p); a.max_flow = p
m.run()
assert np.all(r.data <= 4.0), r.data
'''),
dict(id="c20-fdev-scenario", property="C20", needs="targets per member of a scenario which is not the last of several",
  breaks="the deviation from a target flow duration curve uses the target of another member",
  edits=[(RR, "                j = scenario_index._indices[sc_index]\n            else:\n                j = scenario_index.global_id\n\n            if self._lower", "                j = i % self.scenario.size\n            else:\n                j = scenario_index.global_id\n\n            if self._lower")],
  demo=H + '''
m, a, l, b = chain()
s1, s2 = Scenario(m, "s1", size=2), Scenario(m, "s2", size=3)
r = FlowDurationCurveDeviationRecorder(m, b, [50.0], lower_target_fdc=[[10.0, 20.0]], scenario=s1)
m.run()
np.testing.assert_allclose(r.fdc_deviations[0], [0.5] * 3 + [0.75] * 3)
'''),
dict(id="c13-gauge-cost", property="C13", needs="the cost of a river split with a gauge assigned after it was made",
  breaks="the cost is given to the extra branch instead of the main one",
  edits=[("pywr/domains/river.py", "            return self.sublinks[1].cost\n\n        def fset(self, value):\n            self.sublinks[1].cost = value\n\n        return locals()\n\n    cost = property(**cost())\n\n\nclass Discharge",
          "            return self.sublinks[-1].cost\n\n        def fset(self, value):\n            self.sublinks[-1].cost = value\n\n        return locals()\n\n    cost = property(**cost())\n\n\nclass Discharge"),
         ("pywr/domains/river.py", "            return self.sublinks[1].cost\n\n        def fset(self, value):\n            self.sublinks[1].cost = value\n\n        return locals()\n\n    cost = property(**cost())\n\n    @classmethod", "", 0)],
  demo=H + '''
from pywr.domains.river import RiverSplitWithGauge
m = Model(start="2015-01-01", end="2015-01-02")
a = Input(m, "a", max_flow=10.0)
g = RiverSplitWithGauge(m, name="g", mrf=2.0, mrf_cost=-5.0, cost=0.0, factors=[1, 1], slot_names=["river", "take"])
b, c = Output(m, "b", cost=-1.0), Output(m, "c", cost=-1.0)
a.connect(g); g.connect(b, from_slot="river"); g.connect(c, from_slot="take")
g.cost = 7.0
assert [x.cost for x in g.sublinks] == [-5.0, 7.0, 0.0], [x.cost for x in g.sublinks]
m.run()
assert b.flow[0] == 2.0 and c.flow[0] == 0.0, (b.flow, c.flow)
'''),
dict(id="c10-delta-changed", property="C10", needs="a window in days and a model whose timestep is changed between two runs",
  breaks="the window keeps the number of timesteps of the first run",
  edits=[("pywr/nodes.py", "        if self.days is not None and self.days > 0:\n            try:\n                self.timesteps", "        if self.days is not None and self.days > 0 and not self.timesteps:\n            try:\n                self.timesteps")],
  demo=H + '''
m, a, l, b = chain(end="2015-02-28")
v = RollingVirtualStorage(m, "v", [b], days=14, initial_volume=70.0, max_volume=70.0)
m.run()
m.timestepper.delta = 7
m.run()
assert v.timesteps == 2, v.timesteps
'''),
dict(id="c16-monthly-end", property="C16", needs="monthly data in a model of several days a step whose last step crosses the end of a month",
  breaks="the last timestep only takes its first day into account",
  edits=[("pywr/dataframe_tools.py", '    end = target_index[-1].asfreq(target_single_tick, how="end")', '    end = target_index[-1].asfreq(target_single_tick, how="start")')],
  demo=H + '''
m, a, l, b = chain(start="2015-01-01", end="2015-02-04", timestep=7)
df = pd.DataFrame({"x": [1.0, 8.0]}, index=pd.period_range("2015-01", "2015-02", freq="M"))
m.timestepper.start = "2015-01-08"; m.timestepper.end = "2015-01-29"
p = DataFrameParameter(m, df); r = NumpyArrayParameterRecorder(m, p); a.max_flow = p
m.run()
np.testing.assert_allclose(r.data[-1, 0], (3 * 1.0 + 4 * 8.0) / 7)
'''),
dict(id="c22-final-length", property="C22", needs="an event of exactly the minimum length which is not over at the end of the run",
  breaks="such an event is dropped",
  edits=[("pywr/recorders/events.py", "                if current_length >= self.minimum_event_length:\n                    self.events.append(current_event)\n                self._current", "                if current_length > self.minimum_event_length:\n                    self.events.append(current_event)\n                self._current")],
  demo=H + '''
m, a, l, b = chain()
t = ArrayIndexedParameter(m, [0.0] * 7 + [1.0] * 3)
e = EventRecorder(m, t, minimum_event_length=2)
e2 = EventRecorder(m, t, name="e2", minimum_event_length=3)
m.run()
n = [len(e.events), len(e2.events)]
k = e.events[0].end.index - e.events[0].start.index if e.events else 0
e3 = EventRecorder(m, t, name="e3", minimum_event_length=k)
m.run()
assert len(e3.events) == 1, n
'''),
dict(id="c05-min-none", property="C05", needs="a minimum flow given by a parameter, cleared by assigning None",
  breaks="the parameter still applies",
  edits=[(CC, "            if value is None:\n                self._min_flow = 0\n                self._min_flow_param = None\n", "            if value is None:\n                self._min_flow = 0\n")],
  demo=H + '''
m, a, l, b = chain()
l.min_flow = ConstantParameter(m, 4.0)
b.cost = 5.0
l.min_flow = None
m.run()
assert b.flow[0] == 0.0, b.flow
'''),
dict(id="c18-piecewise-min", property="C18", needs="a piecewise interpolated control curve with a bottom above empty, below its lowest curve",
  breaks="the lowest band is interpolated down to empty",
  edits=[("pywr/parameters/_control_curves.pyx", "        val = _interpolate(current_pc, self.minimum, cc_prev, self._values[ncc, 1], self._values[ncc, 0])", "        val = _interpolate(current_pc, 0.0, cc_prev, self._values[ncc, 1], self._values[ncc, 0])")],
  demo=H + '''
from pywr.parameters.control_curves import ControlCurvePiecewiseInterpolatedParameter as C
m, a, l, b = chain()
a.max_flow = 0.0; b.max_flow = 0.0
s = Storage(m, "s", max_volume=100.0, initial_volume=30.0); a.connect(s); s.connect(b)
p = C(m, s, [0.5], [[4.0, 3.0], [2.0, 1.0]], minimum=0.2); r = NumpyArrayParameterRecorder(m, p)
m.run()
np.testing.assert_allclose(r.data[0, 0], 1.0 + 1.0 / 3.0)
'''),
dict(id="c31-min-volume", property="C31", needs="an aquifer whose lowest tabulated volume is above zero",
  breaks="the aquifer can be drawn below its lowest volume",
  edits=[("pywr/domains/groundwater.py", "        self.min_volume = min(volumes)", "        self.min_volume = min(0.0, *volumes)")],
  demo=H + '''
from pywr.domains.groundwater import KeatingAquifer
m = Model(start="2015-01-01", end="2015-01-20")
q = KeatingAquifer(m, "q", num_streams=1, num_additional_inputs=1, stream_flow_levels=[[50.0]], transmissivity=[1.0], coefficient=0.001,
                   levels=[0.0, 100.0], volumes=[20.0, 100.0], initial_volume=60.0)
b, c = Output(m, "b"), Output(m, "c", max_flow=10.0, cost=-5.0)
q.connect(b, from_slot=0); q.connect(c, from_slot=1)
a = Input(m, "a", max_flow=0.0); a.connect(q)
m.run()
assert q.volume[0] >= 20.0 - 1e-6, q.volume
'''),
]
