H = '''
import numpy as np, pandas as pd, sys, os, json, warnings
from pywr.core import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.nodes import *
def chain(**kw):
    kw.setdefault("start", "2015-01-01"); kw.setdefault("end", "2015-01-10")
    m = Model(**kw)
    a, l, b = Input(m, "a", max_flow=10.0), Link(m, "l"), Output(m, "b", max_flow=5.0, cost=-10.0)
    a.connect(l); l.connect(b)
    return m, a, l, b
'''
PP, RR, CC = "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/_core.pyx"
TAIL = '\n    cpdef double get_max_flow(self, ScenarioIndex scenario_index) except? -1:\n        """Get the maximum flow at a given timestep\n        """\n        if self._max_flow_param is None:\n            return self._max_flow\n        return self._max_flow_param.get_value(scenario_index)\n\n    cpdef double[:] get_all_max_flow(self, double[:] out=None):\n        if out is None:\n            out = np.empty(len(self.model.scenarios.combinations))\n\n        if self._max_flow_param is None:\n            out[:] = self._max_flow\n        else:\n            out[:] = self._max_flow_param.get_all_values()\n        return out\n\n    cpdef double[:] get_factors(self'
BUGS = [
dict(id="c28-hash-upper", property="C28", needs="two tables read from one file, the second with its checksum in capitals",
  breaks="the checksum of a file which was verified before is compared with regard to case",
  edits=[("pywr/hashes.py", "if cached_hash.lower() == hash.lower():", "if cached_hash == hash:")],
  demo='''
import hashlib
from pywr.core import Model
open("t.csv", "w").write("a,b\\n1,2\\n"); h = hashlib.md5(open("t.csv", "rb").read()).hexdigest()
m = Model()
m.check_hash("t.csv", h); m.check_hash("t.csv", h.upper())
'''),
dict(id="c28-index-order", property="C28", needs="a selection of rows in another order than the table's",
  breaks="selected rows come in the order of the table instead of the order asked for",
  edits=[("pywr/dataframe_tools.py", "            df = df.loc[indexes, :]\n", "            df.loc[indexes]\n            df = df[df.index.isin(indexes)]\n")],
  demo='''
from pywr.core import Model
from pywr.dataframe_tools import load_dataframe
df = load_dataframe(Model(), {"data": {"v": {"x": 1, "y": 2, "z": 3}}, "indexes": ["z", "x"]})
assert list(df.index) == ["z", "x"], df
'''),
dict(id="c29-zero-attr", property="C29", needs="attributes shown for a node one of whose attributes is zero",
  breaks="attributes with the value zero are not shown",
  edits=[("pywr/notebook/__init__.py", "if attr_val is None or attr_name.lower() in attrs_to_skip:", "if attr_val in (None, 0) or attr_name.lower() in attrs_to_skip:")],
  demo=H + '''
from pywr.notebook import pywr_model_to_d3_json
m, a, l, b = chain(); a.max_flow = 0.0
at = {d["attribute"]: d["value"] for d in pywr_model_to_d3_json(m, attributes=True)["nodes"][0]["attributes"]}
assert at["max_flow"] == "0.0", at
'''),
dict(id="c25-slice-step", property="C25", needs="a document with a scenario whose slice has a step",
  breaks="the step of a scenario's slice is dropped when loading",
  edits=[("pywr/_model.pyx", "s_slice = slice(*s_slice)", "s_slice = slice(s_slice[0], s_slice[1])")],
  demo='''
from pywr.core import Model
d = {"metadata": {"title": "t", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1},
 "scenarios": [{"name": "s", "size": 6, "slice": [0, 6, 2]}],
 "nodes": [{"name": "a", "type": "Input"}, {"name": "b", "type": "Output", "max_flow": 1.0, "cost": -1.0}], "edges": [["a", "b"]]}
m = Model.load(d); m.setup(); assert len(m.scenarios.combinations) == 3
'''),
dict(id="c26-max-length", property="C26", needs="a search for routes with a maximum length",
  breaks="routes one node longer than the maximum are returned",
  edits=[("pywr/_model.pyx", "if len(route) > max_length:", "if len(route) - 1 > max_length:")],
  demo=H + '''
m, a, l, b = chain()
assert m.find_all_routes(a, b, max_length=2) == [] and len(m.find_all_routes(a, b, max_length=3)) == 1
'''),
dict(id="c20-threshold-equal", property="C20", needs="a volume that comes to rest exactly on the threshold",
  breaks="a volume equal to the threshold does not count as having reached it",
  edits=[(RR, "            if self._node._volume[i] <= self.threshold:", "            if self._node._volume[i] < self.threshold:")],
  demo=H + '''
m = Model(start="2015-01-01", end="2015-01-04"); s, b = Storage(m, "s", min_volume=4.0, max_volume=20.0, initial_volume=20.0), Output(m, "b", max_flow=10.0, cost=-10.0); s.connect(b)
a = Input(m, "a", max_flow=0.0); a.connect(s)
r = MinimumThresholdVolumeStorageRecorder(m, s, 4.0); m.run(); assert r.values()[0] == 1.0, list(r.values())
'''),
dict(id="c24-after-late", property="C24", needs="a linked model that reads the volume of a storage of a model before it",
  breaks="the state of a model is only updated after all models have been solved, so that later ones see the volume of the step before",
  edits=[("pywr/model.py", "            rets.append(ret)\n            model.after()\n            logger.debug(f\"Finished time-step of sub-model: {name}\")\n", "            rets.append(ret)\n            logger.debug(f\"Finished time-step of sub-model: {name}\")\n        for model in self.models.values():\n            model.after()\n")],
  demo=H + '''
from pywr.model import MultiModel
from pywr.parameters.multi_model_parameters import OtherModelNodeStorageParameter
mm = MultiModel()
m1 = Model(start="2015-01-01", end="2015-01-05"); s, b = Storage(m1, "s", max_volume=50.0, initial_volume=50.0), Output(m1, "b", max_flow=10.0, cost=-10.0); s.connect(b)
a = Input(m1, "a", max_flow=0.0); a.connect(s)
m2, *_ = chain(end="2015-01-05"); p = OtherModelNodeStorageParameter(m2, "m1", "s"); r = NumpyArrayParameterRecorder(m2, p)
mm.add_model("m1", m1); mm.add_model("m2", m2); mm.run()
assert np.allclose(r.data[:, 0], [40, 30, 20, 10, 0]), r.data
'''),
dict(id="c24-shadow-order", property="C24", needs="a shadow of a storage of a model before it, whose previous flow is used",
  breaks="the previous flow of a shadow storage is its own last flow",
  edits=[(CC, "        self._current_pc[:] = self._other_model_node._current_pc\n        self._flow[:] = self._other_model_node._flow\n        self._prev_flow[:] = self._other_model_node._prev_flow\n", "        self._current_pc[:] = self._other_model_node._current_pc\n        self._prev_flow[:] = self._flow\n        self._flow[:] = self._other_model_node._flow\n")],
  demo=H + '''
from pywr.model import MultiModel
mm = MultiModel()
m1 = Model(start="2015-01-01", end="2015-01-05"); s, b = Storage(m1, "s", max_volume=50.0, initial_volume=50.0), Output(m1, "b", max_flow=ArrayIndexedParameter(m1, np.array([1., 2., 3., 4., 5.])), cost=-10.0); s.connect(b)
a = Input(m1, "a", max_flow=0.0); a.connect(s)
m2, *_ = chain(end="2015-01-05")
from pywr.nodes import ShadowStorage
sh = ShadowStorage(m2, "m1", "s", name="sh")
class R(Recorder):
    def reset(self): self.d = []
    def after(self): self.d.append((sh.prev_flow[0], s.prev_flow[0]))
r = R(m2, name="r")
mm.add_model("m1", m1); mm.add_model("m2", m2); mm.run()
assert all(x == y for x, y in r.d), r.d
'''),
dict(id="c27-view", property="C27", needs="values of a monthly profile read before new ones are set",
  breaks="the variables read from a monthly profile change when it is changed",
  edits=[(PP, "            return np.asarray(daily_values)\n\n    cpdef double[:] get_double_variables(self):\n        # Make sure we return a copy of the data instead of a view.\n        return np.array(self._values).copy()\n", "            return np.asarray(daily_values)\n\n    cpdef double[:] get_double_variables(self):\n        return self._values\n")],
  demo=H + '''
m, a, l, b = chain(); p = MonthlyProfileParameter(m, np.arange(12.0)); x = p.get_double_variables()
p.set_double_variables(np.ones(12)); assert list(x) == list(range(12)), list(x)
'''),
dict(id="c16-missing", property="C16", needs="a time series with one missing value",
  breaks="missing values are only reported if all values are missing",
  edits=[("pywr/dataframe_tools.py", "if df.isnull().values.any():", "if df.isnull().values.all():")],
  demo=H + '''
m, a, l, b = chain(); i = pd.date_range("2015-01-01", "2015-01-10"); v = np.ones(10); v[3] = np.nan
r = NumpyArrayParameterRecorder(m, DataFrameParameter(m, pd.Series(v, index=i)))
try: m.run()
except Exception: sys.exit(0)
sys.exit(1)
'''),
dict(id="c11-limit-replaced", property="C11", needs="an aggregated limit first given by a parameter, then by a number",
  breaks="a number which replaces a parameter as the limit of an aggregated node has no effect",
  edits=[(CC, "                self._max_flow_param = None\n                self._max_flow = value\n" + TAIL, "                self._max_flow = value\n" + TAIL)],
  demo=H + '''
m, a, l, b = chain(); n = AggregatedNode(m, "n", [l]); n.max_flow = ConstantParameter(m, 4.0)
m.run(); n.max_flow = 2.0; m.run(); assert np.allclose(b.flow, 2.0), b.flow
'''),
dict(id="c08-duplicate", property="C08", needs="a node that counts twice in a virtual storage",
  breaks="a node listed more than once in a virtual storage is debited once",
  edits=[(CC, "for n, f in zip(self._nodes, self._factors):", "for n, f in dict(zip(self._nodes, self._factors)).items():")],
  demo=H + '''
m, a, l, b = chain(end="2015-01-02"); v = VirtualStorage(m, "v", [l, b, l], factors=[1.0, 0.0, 1.0], max_volume=100.0, initial_volume=100.0)
m.run(); assert np.allclose(v.volume, 80.0), v.volume
'''),
dict(id="c10-bounds", property="C10", needs="a rolling storage which returns water used in a timestep it was overdrawn in",
  breaks="the water returned is limited to the present storage",
  edits=[(CC, "            self._memory[self._memory_pointer, i] = -self._flow[i] * ts.days\n", "            self._memory[self._memory_pointer, i] = min(-self._flow[i] * ts.days, self._volume[i])\n")],
  demo=H + '''
m, a, l, b = chain(end="2015-01-06"); v = RollingVirtualStorage(m, "v", [l], timesteps=3, max_volume=10.0, initial_volume=10.0); r = NumpyArrayStorageRecorder(m, v)
f = NumpyArrayNodeRecorder(m, l); m.run(); assert np.allclose(f.data[:, 0], [5, 5, 5, 5, 5, 5]) or abs(r.data[3, 0] - (10 - f.data[2:4, 0].sum())) < 1e-6, (r.data, f.data)
'''),
dict(id="c04-flow-start", property="C04", needs="a second run of a model with a parameter that follows the flow of the previous timestep",
  breaks="the flow parameter of a second run starts from the last flow of the first",
  edits=[(PP, "        self.__next_values = np.empty([num_comb], np.float64)\n\n    cpdef reset(self):\n        self.__next_values[...] = self.initial_value\n", "        self.__next_values = np.full([num_comb], self.initial_value, np.float64)\n\n    cpdef reset(self):\n")],
  demo=H + '''
m, a, l, b = chain(); p = FlowParameter(m, l, initial_value=1.0); r = NumpyArrayParameterRecorder(m, p)
m.run(); m.run(); assert r.data[0, 0] == 1.0, r.data[:2]
'''),
]
