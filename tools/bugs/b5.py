H = '''
import numpy as np, pandas as pd, sys, os, json, warnings
from pywr.core import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.nodes import *
def chain(**kw):
    kw.setdefault("start", "2015-01-01"); kw.setdefault("end", "2015-01-10")
    m = Model(**kw)
    a, l, b = Input(m, "a", max_flow=10.0), Link(m, "l"), Output(m, "b", max_flow=5.0, cost=-10.0)
    a.connect(l); l.connect(b)
    return m, a, l, b
'''
PP, RR, CC = "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/_core.pyx"
BUGS = [
dict(id="c12-position", property="C12", needs="a second run after one whose length isn't a multiple of the window",
  breaks="the rolling mean of the first steps of the second run reads places which were not written",
  edits=[(PP, "        super(RollingMeanFlowNodeParameter, self).reset()\n        self.position = 0\n", "        super(RollingMeanFlowNodeParameter, self).reset()\n")],
  demo=H + '''
m, a, l, b = chain()
b.max_flow = ArrayIndexedParameter(m, np.arange(1.0, 11.0))
p = RollingMeanFlowNodeParameter(m, b, timesteps=3, initial_flow=7.0)
r = NumpyArrayParameterRecorder(m, p)
want = [7, 1, 1.5, 2, 3, 4, 5, 6, 7, 8]
for _ in range(2):
    m.run()
    np.testing.assert_allclose(r.data[:, 0], want)
'''),
dict(id="c21-rerun-counts", property="C21", needs="a second run of a model which counts exceedances by year, without a new set-up",
  breaks="the first year of the second run starts from the counts of the last year of the first",
  edits=[(RR, "                    self._data[idx, i] = np.sum(self._data_this_year[:, i])\n\n            self._data_this_year[...] = 0\n", "                    self._data[idx, i] = np.sum(self._data_this_year[:, i])\n                self._data_this_year[...] = 0\n\n")],
  demo=H + '''
m, a, l, b = chain()
p = ConstantScenarioIndexParameter(m, Scenario(m, "s", 2), [0, 1])
r = AnnualCountIndexThresholdRecorder(m, [p], "r", 1)
for _ in range(2):
    m.run()
    np.testing.assert_array_equal(r.data, [[0, 10]])
'''),
dict(id="c30-kde-below", property="C30", needs="a storage which is often close to empty, and reflection",
  breaks="what the smoothing puts below zero is counted twice in the probability",
  edits=[("pywr/recorders/kde.py", "        p = kernel.integrate_box_1d(0.0, self.target_volume_pc)", "        p = kernel.integrate_box_1d(-np.inf, self.target_volume_pc)")],
  demo=H + '''
from pywr.recorders.kde import GaussianKDEStorageRecorder
m, a, l, b = chain(end="2015-03-31")
a.max_flow = ArrayIndexedParameter(m, np.random.RandomState(1).choice([0.0, 1.0, 6.0], size=90))
s = Storage(m, "s", max_volume=50.0, initial_volume=5.0); a.connect(s); s.connect(b)
r = GaussianKDEStorageRecorder(m, s, target_volume_pc=1.0)
m.run()
assert abs(r.aggregated_value() - 1.0) < 0.02, r.aggregated_value()
'''),
dict(id="c30-kde-scenario", property="C30", needs="several scenarios whose volumes differ",
  breaks="only the first scenario counts",
  edits=[("pywr/recorders/kde.py", "        p, pdf = self._estimate_pdf_and_target_probability(df.values.flatten(), x)", "        p, pdf = self._estimate_pdf_and_target_probability(df.values[:, 0], x)", 2)],
  demo=H + '''
from pywr.recorders.kde import GaussianKDEStorageRecorder
m, a, l, b = chain(end="2015-03-31")
sc = Scenario(m, "sc", 2)
b.max_flow = ConstantScenarioParameter(m, sc, [0.0, 5.0]); b.cost = -100.0
a.max_flow = ArrayIndexedParameter(m, np.random.RandomState(1).choice([0.0, 1.0, 6.0], size=90))
s = Storage(m, "s", max_volume=50.0, initial_volume=25.0, cost=-1.0); a.connect(s); s.connect(b)
r = GaussianKDEStorageRecorder(m, s, target_volume_pc=0.5)
m.run()
assert 0.3 < r.aggregated_value() < 0.7, r.aggregated_value()
'''),
dict(id="c30-progress-rerun", property="C30", needs="another run of a model with a progress recorder",
  breaks="nothing is reported in the second run",
  edits=[("pywr/recorders/progress.py", "    def reset(self):\n        self.last_progress = -1\n", "    def setup(self):\n        super().setup()\n        self.last_progress = -1\n\n    def reset(self):\n")],
  demo=H + '''
from pywr.recorders.progress import ProgressRecorder
m, a, l, b = chain()
said = []
ProgressRecorder(m, print_func=said.append, name="p")
m.run(); k = len(said)
m.run()
assert len(said) == 2 * k and k == 10, (k, len(said))
'''),
dict(id="c27-truncate", property="C27", needs="an optimiser which proposes a real number for an integer variable",
  breaks="integers are rounded towards zero, so that the upper bound is hardly ever used",
  edits=[("pywr/optimisation/platypus.py", "                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)", "                ints = np.array(x[-var.integer_size :]).astype(np.int32)")],
  demo=H + '''
from pywr.optimisation.platypus import PlatypusWrapper
from pywr.parameters._parameters import ConstantParameter
class IntP(Parameter):
    def __init__(self, model, **kw):
        super().__init__(model, is_variable=True, **kw); self.v = 1
        self.integer_size = 1; self.double_size = 0
    def value(self, ts, si): return float(self.v)
    def set_integer_variables(self, v): self.v = int(v[0])
    def get_integer_variables(self): return np.array([self.v], dtype=np.int32)
    def get_integer_lower_bounds(self): return np.array([0], dtype=np.int32)
    def get_integer_upper_bounds(self): return np.array([9], dtype=np.int32)
    @classmethod
    def load(cls, model, data): return cls(model, **data)
IntP.register()
doc = {"metadata": {"title": "x", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
       "nodes": [{"name": "a", "type": "input", "max_flow": "p"}, {"name": "b", "type": "output", "max_flow": 100.0, "cost": -1.0}], "edges": [["a", "b"]],
       "parameters": {"p": {"type": "intp"}}, "recorders": {"r": {"type": "totalflownode", "node": "b", "is_objective": "maximise"}}}
w = PlatypusWrapper(doc)
assert w.evaluate([4.75])[0] == -10.0
'''),
dict(id="c18-index-boundary", property="C18", needs="a storage exactly at its control curve",
  breaks="it is taken to be below the curve",
  edits=[("pywr/parameters/_control_curves.pyx", "            target_percentage = control_curve.get_value(scenario_index)\n            if current_percentage >= target_percentage:\n                index = j", "            target_percentage = control_curve.get_value(scenario_index)\n            if current_percentage > target_percentage:\n                index = j")],
  demo=H + '''
m, a, l, b = chain()
s = Storage(m, "s", max_volume=8.0, initial_volume=4.0); a.connect(s); s.connect(b)
p = ControlCurveIndexParameter(m, s, [ConstantParameter(m, 0.75), ConstantParameter(m, 0.5)])
r = NumpyArrayIndexParameterRecorder(m, p)
m.run()
assert r.data[0, 0] == 1, r.data
'''),
]
