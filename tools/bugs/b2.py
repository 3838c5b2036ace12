H = '''
import numpy as np, pandas as pd
from pywr.core import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.nodes import *
def chain(**kw):
    kw.setdefault("start", "2015-01-01"); kw.setdefault("end", "2015-01-10")
    m = Model(**kw)
    a, l, b = Input(m, "a", max_flow=10.0), Link(m, "l"), Output(m, "b", max_flow=5.0, cost=-10.0)
    a.connect(l); l.connect(b)
    return m, a, l, b
'''
PP, RR = "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx"
BUGS = [
dict(id="c12-delay-rerun", property="C12", needs="a second run of a model with a delayed flow whose initial flow differs from the last flows of the first run",
  breaks="the initial flow of a delay is used in the first run only",
  edits=[(PP, "        self._memory = np.zeros((self.timesteps,  len(self.model.scenarios.combinations)))\n        self._memory_pointer = 0\n", "        self._memory = np.full((self.timesteps,  len(self.model.scenarios.combinations)), float(self.initial_flow))\n        self._memory_pointer = 0\n"),
         (PP, "        self._memory[...] = self.initial_flow\n        self._memory_pointer = 0\n", "        self._memory_pointer = 0\n")],
  demo=H + '''
m, a, l, b = chain(); p = FlowDelayParameter(m, b, timesteps=3, initial_flow=1.0); r = NumpyArrayParameterRecorder(m, p)
m.run(); m.run()
assert np.allclose(r.data[:3, 0], 1.0), r.data
'''),
dict(id="c12-rolling-days", property="C12", needs="a rolling mean over a number of days which is no multiple of the timestep",
  breaks="the window of a rolling mean of days is one timestep too long",
  edits=[(PP, "                self.timesteps = self.days // self.model.timestepper.delta\n            except TypeError:\n                raise TypeError('A rolling window defined as a number of days is only valid with daily time-steps.')\n        if self.timesteps == 0:\n            raise ValueError(\"Timesteps is less than 1.\")", "                self.timesteps = -(-self.days // self.model.timestepper.delta)\n            except TypeError:\n                raise TypeError('A rolling window defined as a number of days is only valid with daily time-steps.')\n        if self.timesteps == 0:\n            raise ValueError(\"Timesteps is less than 1.\")")],
  demo=H + '''
m, a, l, b = chain(timestep=3, end="2015-02-10"); b.max_flow = ArrayIndexedParameter(m, np.arange(20.0))
p = RollingMeanFlowNodeParameter(m, b, days=7); r = NumpyArrayParameterRecorder(m, p)
m.run(); assert np.allclose(r.data[5, 0], 3.5), r.data[5]
'''),
dict(id="c15-harmonic-cache", property="C15", needs="new values for a harmonic series after a run of a single timestep",
  breaks="the first timestep of a run shows the value of the last one evaluated before",
  edits=[(PP, "    cpdef reset(self):\n        Parameter.reset(self)\n        self._value_cache = 0.0\n        self._ts_index_cache = -1\n\n    cpdef double value(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:\n        cdef int ts_index = timestep.index\n        cdef int doy = timestep.dayofyear - 1\n        cdef int n",
                 "    cpdef reset(self):\n        Parameter.reset(self)\n\n    cpdef double value(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:\n        cdef int ts_index = timestep.index\n        cdef int doy = timestep.dayofyear - 1\n        cdef int n")],
  demo=H + '''
m, a, l, b = chain(end="2015-01-01"); p = AnnualHarmonicSeriesParameter(m, 1.0, [0.5], [0.0]); r = NumpyArrayParameterRecorder(m, p)
m.run(); p.set_double_variables(np.array([3.0, 0.5, 0.0])); m.run()
assert np.allclose(r.data[0], 3.5), r.data
'''),
dict(id="c18-ratchet-rerun", property="C18", needs="a ratchet that was on in an earlier run",
  breaks="a ratchet stays on in the next run",
  edits=[("pywr/parameters/_thresholds.pyx", "        self._triggered = np.empty(ncomb, dtype=np.uint8)\n", "        self._triggered = np.zeros(ncomb, dtype=np.uint8)\n"),
         ("pywr/parameters/_thresholds.pyx", "        self._triggered[...] = 0\n", "        if not self.ratchet:\n            self._triggered[...] = 0\n")],
  demo=H + '''
m, a, l, b = chain(); x = ArrayIndexedParameter(m, np.arange(10.0))
t = ParameterThresholdParameter(m, x, 4.0, values=[0.0, 1.0], predicate="GT", ratchet=True); r = NumpyArrayParameterRecorder(m, t)
m.run(); m.run(); assert r.data[0, 0] == 0.0, r.data
'''),
dict(id="c18-trigger-float", property="C18", needs="a ratchet in a model with several scenarios of which an earlier one is on",
  breaks="one scenario's ratchet turns on those after it",
  edits=[("pywr/parameters/_thresholds.pyx", "        self._triggered[scenario_index.global_id] = max(ind, triggered)\n", "        self._triggered[scenario_index.global_id:] = max(ind, triggered)\n")],
  demo=H + '''
m, a, l, b = chain(); s = Scenario(m, "s", size=2); x = ConstantScenarioParameter(m, s, [5.0, 1.0])
t = ParameterThresholdParameter(m, x, 4.0, values=[0.0, 1.0], predicate="GT", ratchet=True); r = NumpyArrayParameterRecorder(m, t)
m.run(); assert r.data[:, 1].max() == 0.0, r.data
'''),
dict(id="c16-extra-columns", property="C16", needs="a table with more columns than the scenario has members",
  breaks="surplus columns of a time series are accepted silently",
  edits=[(PP, "            if self.scenario.size != dataframe_resampled.shape[1]:", "            if self.scenario.size > dataframe_resampled.shape[1]:")],
  demo=H + '''
m, a, l, b = chain(); s = Scenario(m, "s", size=2)
DataFrameParameter(m, pd.DataFrame(np.ones((10, 3)), index=pd.date_range("2015-01-01", periods=10, freq="D")), scenario=s, name="d")
try: m.setup()
except ValueError: pass
else: raise AssertionError("not refused")
'''),
dict(id="c17-piecewise-neg", property="C17", needs="a piecewise integral of an input below zero",
  breaks="a negative input of a piecewise integral gives a negative value",
  edits=[(PP, "            if dx < 0.0:\n                break\n            else:\n                integral += dx * self.y[i]\n", "            integral += dx * self.y[i]\n            if dx < 0.0:\n                break\n")],
  demo=H + '''
m, a, l, b = chain(); p = PiecewiseIntegralParameter(m, ConstantParameter(m, 4.0), [5.0, 10.0], [1.0, 2.0]); r = NumpyArrayParameterRecorder(m, p)
m.run(); assert np.allclose(r.data, 4.0), r.data
'''),
dict(id="c17-any-negative", property="C17", needs="an index aggregate 'any' with a negative index",
  breaks="negative indices do not count in 'any'",
  edits=[(PP, "                    if values[i]:\n                        accum[i] = 1\n", "                    if values[i] > 0:\n                        accum[i] = 1\n")],
  demo=H + '''
class I(IndexParameter):
    def index(self, ts, si): return -1
m, a, l, b = chain(); p = AggregatedIndexParameter(m, [I(m)], "any"); r = NumpyArrayIndexParameterRecorder(m, p)
m.run(); assert (np.array(r.data) == 1).all(), r.data
'''),
dict(id="c19-overdrawn", property="C19", needs="a licensed node that uses more than the licence offers",
  breaks="the account is overdrawn and offers a negative amount",
  edits=[("pywr/parameters/licenses.py", "        self._remaining -= self._node.flow * timestep.days\n        self._remaining[self._remaining < 0] = 0.0\n", "        self._remaining -= self._node.flow * timestep.days\n")],
  demo=H + '''
from pywr.parameters.licenses import AnnualLicense
m, a, l, b = chain(); p = AnnualLicense(m, b, 20.0); r = NumpyArrayParameterRecorder(m, p)
m.run(); assert r.data.min() >= 0.0, r.data
'''),
dict(id="c20-profile-rerun", property="C20", needs="a second run over fewer days of the year than the first",
  breaks="a daily profile keeps the days of an earlier run",
  edits=[(RR, "    cpdef reset(self):\n        self._data[:, :] = 0.0\n\n    cpdef after(self):\n        cdef ScenarioIndex scenario_index\n        cdef Timestep ts = self.model.timestepper.current\n        cdef int i = ts.dayofyear_index", "    cpdef after(self):\n        cdef ScenarioIndex scenario_index\n        cdef Timestep ts = self.model.timestepper.current\n        cdef int i = ts.dayofyear_index")],
  demo=H + '''
m, a, l, b = chain(); r = NumpyArrayDailyProfileParameterRecorder(m, ConstantParameter(m, 2.0))
m.run(); assert np.allclose(r.data[10:], 0.0), r.data
m.reset(); m.step(); m.step(); assert np.allclose(r.data[2:], 0.0), r.data
'''),
dict(id="c20-rolling-position", property="C20", needs="a rerun of a model whose number of timesteps is no multiple of a rolling window",
  breaks="the rolling means at the start of a rerun contain flows of the earlier run",
  edits=[(RR, "        super(RollingMeanFlowNodeRecorder, self).reset()\n        self.position = 0\n", "        super(RollingMeanFlowNodeRecorder, self).reset()\n")],
  demo=H + '''
m, a, l, b = chain(); b.max_flow = ArrayIndexedParameter(m, np.arange(10.0)); r = RollingMeanFlowNodeRecorder(m, b, timesteps=4)
m.run(); d = r.data.copy(); m.run(); assert np.allclose(d, r.data), (d[:5], r.data[:5])
'''),
dict(id="c21-include-leap", property="C21", needs="a range of dates ending after February in a leap year of a run which begins in another year",
  breaks="the last day counted in leap years is a day early",
  edits=[(RR, "            include_to = pd.Timestamp(self._current_year, self.include_to_month, self.include_to_day).dayofyear", "            include_to = pd.Timestamp(self._start_year, self.include_to_month, self.include_to_day).dayofyear")],
  demo=H + '''
class I(IndexParameter):
    def index(self, ts, si): return 1
m, a, l, b = chain(start="2015-12-01", end="2016-12-31")
r = AnnualCountIndexThresholdRecorder(m, [I(m)], "r", 1, include_from_month=3, include_from_day=1, include_to_month=3, include_to_day=10)
m.run(); assert r.data[1, 0] == 10, r.data
'''),
dict(id="c22-length-days", property="C22", needs="a minimum event length with timesteps other than a day",
  breaks="the minimum length of events is compared with their days, not timesteps",
  edits=[("pywr/recorders/events.py", "                    current_length = ts.index - current_event.start.index\n\n", "                    current_length = (ts.datetime - current_event.start.datetime).days\n\n")],
  demo=H + '''
m, a, l, b = chain(timestep=7, end="2015-04-01")
x = ArrayIndexedParameter(m, [0, 1, 1, 0, 1, 1, 1, 1, 0] + [0] * 10)
t = ParameterThresholdParameter(m, x, 0.5, values=[0.0, 1.0], predicate="GT"); r = EventRecorder(m, t, minimum_event_length=3)
m.run(); assert len(r.events) == 1, len(r.events)
'''),
dict(id="c27-bound-strict", property="C27", needs="a value exactly on the upper one of two bounds",
  breaks="a value equal to the upper bound of a double bounded constraint counts as a violation",
  edits=[(RR, "            feasible = self.constraint_lower_bounds <= value <= self.constraint_upper_bounds", "            feasible = self.constraint_lower_bounds <= value < self.constraint_upper_bounds")],
  demo=H + '''
m, a, l, b = chain(); r = TotalFlowNodeRecorder(m, b, constraint_lower_bounds=10.0, constraint_upper_bounds=50.0)
m.run(); assert not r.is_constraint_violated()
'''),
dict(id="c06-middle-input", property="C06", needs="an input with a cost on the way from another input",
  breaks="the cost of an input is charged for water that only passes it",
  edits=[("pywr/solvers/cython_glpk.pyx", "            for some_node in route[1:-1]:\n                if isinstance(some_node, BaseLink):\n                    route_cost.append", "            for some_node in route[1:-1]:\n                if isinstance(some_node, (BaseLink, BaseInput)):\n                    route_cost.append")],
  demo=H + '''
m = Model(start="2015-01-01", end="2015-01-03", solver="glpk")
s, a, b = Input(m, "s", max_flow=3.0), Input(m, "a", max_flow=10.0, cost=20.0), Output(m, "b", max_flow=5.0, cost=-10.0); s.connect(a); a.connect(b)
m.run(); assert np.allclose(b.flow, 3.0), b.flow
'''),
dict(id="c05-min-rises", property="C05", needs="a storage whose minimum volume rises above its current volume",
  breaks="a storage below its minimum must take in water, so that a feasible timestep fails",
  edits=[("pywr/solvers/cython_glpk.pyx", "                avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)\n                # change in storage cannot be more than the current volume or\n                # result in maximum volume being exceeded\n                lb = -avail_volume/timestep.days\n                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days\n",
     "                # change in storage cannot be more than the current volume or\n                # result in maximum volume being exceeded\n                lb = (min_volume - storage._volume[scenario_index.global_id]) / timestep.days\n                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days\n", 4)],
  demo=H + '''
m = Model(start="2015-01-01", end="2015-01-03", solver="glpk")
s, b = Storage(m, "s", min_volume=ArrayIndexedParameter(m, [0.0, 15.0, 15.0]), max_volume=50.0, initial_volume=20.0), Output(m, "b", max_flow=10.0, cost=-10.0); s.connect(b)
a = Input(m, "a", max_flow=1.0); a.connect(s)
m.run(); assert np.allclose(s.volume, 10.0), s.volume
'''),
]
