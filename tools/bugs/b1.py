H = '''
import numpy as np
from pywr.core import *
from pywr.parameters import *
from pywr.recorders import *
from pywr.nodes import *
def chain(**kw):
    m = Model(start="2015-01-01", end="2015-01-10", **kw)
    a, l, b = Input(m, "a", max_flow=10.0), Link(m, "l"), Output(m, "b", max_flow=5.0, cost=-10.0)
    a.connect(l); l.connect(b)
    return m, a, l, b
'''
BUGS = [
dict(id="c02-finish-failed", property="C02", needs="a component raising in the middle of a run",
  breaks="components are not finished when a run fails before its last timestep",
  edits=[("pywr/_model.pyx", "        finally:\n            self.finish()\n        t3", "        finally:\n            if timestep is None or timestep.index == len(self.timestepper) - 1:\n                self.finish()\n        t3")],
  demo=H + '''
class R(Recorder):
    n = 0
    def after(self):
        if self.model.timestepper.current.index == 3: raise RuntimeError("boom")
    def finish(self): R.n += 1
m, a, l, b = chain(); R(m, name="r")
try: m.run()
except RuntimeError: pass
assert R.n == 1, R.n
'''),
dict(id="c02-values-interleaved", property="C02", needs="a parameter whose before method is used by the value of a parameter that is evaluated earlier",
  breaks="values are computed before all components have had their before method called",
  edits=[("pywr/_model.pyx", "            component.before()\n        for component in components:\n            logger.debug(\"Calculating values for component: %s\", component.name)\n", "            component.before()\n            logger.debug(\"Calculating values for component: %s\", component.name)\n")],
  demo=H + '''
log = []
class X(Parameter):
    def before(self): log.append("b")
    def value(self, ts, si): log.append("v"); return 1.0
m, a, l, b = chain(); X(m, name="x"); X(m, name="y"); m.step()
assert log == ["b", "b", "v", "v"], log
'''),
dict(id="c03-stale-order", property="C03", needs="a model set up again after the dependencies of existing components were changed but not their number",
  breaks="the evaluation order of an earlier set-up is kept, so a parameter may use a value of the previous timestep",
  edits=[("pywr/_model.pyx", "components = self.flatten_component_tree(rebuild=True)", "components = self.flatten_component_tree(rebuild=self.component_tree_flat is None or len(self.component_tree_flat) != len(self.component_graph) - 1)")],
  demo=H + '''
m, a, l, b = chain()
v = ArrayIndexedParameter(m, np.arange(10.0), name="v"); c = ConstantParameter(m, 1.0, name="c")
w = ArrayIndexedParameter(m, np.arange(10.0), name="w")
ps = [DivisionParameter(m, x, c, name="d" + x.name) for x in (v, w)]
r = [NumpyArrayParameterRecorder(m, p) for p in ps]
m.run()
for p, x in zip(ps, (w, v)):
    p.numerator = NegativeParameter(m, x) if False else x
q = [NegativeParameter(m, ps[0], name="n0"), NegativeParameter(m, ps[1], name="n1")]
for x in q: NumpyArrayParameterRecorder(m, x)
m.setup(); m.run()
ps[0].numerator = q[1]; ps[1].numerator = v
m.dirty = True
m.run()
assert np.allclose(r[0].data[:, 0], -np.arange(10.0)), r[0].data[:, 0]
'''),
dict(id="c03-denominator", property="C03", needs="a division whose denominator was created after the division's numerator and is replaced",
  breaks="a replaced denominator is not evaluated before the division",
  edits=[("pywr/parameters/_parameters.pyx", "                self._denominator.parents.remove(self)\n\n            self._denominator = parameter\n            self.children.add(parameter)", "                self._denominator.parents.remove(self)\n            else:\n                self.children.add(parameter)\n\n            self._denominator = parameter")],
  demo=H + '''
from itertools import permutations
m, a, l, b = chain(); one = ConstantParameter(m, 1.0); ok = True
rs = []
vs = [ArrayIndexedParameter(m, np.arange(10.0) + 1, name="v%d" % i) for i in range(4)]
ds = [DivisionParameter(m, one, one, name="d%d" % i) for i in range(4)]
vs += [ArrayIndexedParameter(m, np.arange(10.0) + 1, name="w%d" % i) for i in range(4)]
for d, v in zip(ds, vs[:2] + vs[4:6]):
    d.denominator = v; rs.append(NumpyArrayParameterRecorder(m, d))
m.run()
for r in rs: assert np.allclose(r.data[:, 0], 1 / (np.arange(10.0) + 1)), r.data[:, 0]
'''),
dict(id="c04-prev-flow", property="C04", needs="a second run of a model that uses the flow of the previous timestep of a node",
  breaks="the previous flow of a node is kept from the end of the earlier run",
  edits=[("pywr/_core.pyx", "            self._flow[i] = 0.0\n            self._prev_flow[i] = 0.0\n", "            self._flow[i] = 0.0\n")],
  demo=H + '''
from pywr.parameters import Polynomial1DParameter
m, a, l, b = chain()
l.max_flow = Polynomial1DParameter(m, [1.0, 0.5], other_parameter=None) if False else None
m.run(); m.reset()
assert (a.prev_flow == 0).all(), a.prev_flow
'''),
dict(id="c04-once-bounds", property="C04", needs="the option to set fixed flows once and a limit changed between two runs without another set-up",
  breaks="limits that are set once are those of the set-up, not of the reset at the start of the run",
  edits=[("pywr/solvers/cython_glpk.pyx", "        # Resetting this triggers a crashing of a new basis in each scenario\n        self.is_first_solve = True\n        self._update_nonstorage_constant_bounds()\n        self._update_constant_agg_factors()\n\n    cdef int _update_nonstorage_constant_bounds(self) except -1:\n        \"\"\"Update the bounds of non-storage where they are constants.\n\n        These bounds do not need updating every time-step.\n        \"\"\"\n        cdef Node node\n        cdef double min_flow\n        cdef double max_flow\n        cdef int row\n        if self.non_storages_with_constant_bounds is None:\n            return 0\n",
   "        # Resetting this triggers a crashing of a new basis in each scenario\n        if self.is_first_solve:\n            self._update_nonstorage_constant_bounds()\n        self.is_first_solve = True\n        self._update_constant_agg_factors()\n\n    cdef int _update_nonstorage_constant_bounds(self) except -1:\n        \"\"\"Update the bounds of non-storage where they are constants.\n\n        These bounds do not need updating every time-step.\n        \"\"\"\n        cdef Node node\n        cdef double min_flow\n        cdef double max_flow\n        cdef int row\n        if self.non_storages_with_constant_bounds is None:\n            return 0\n")],
  demo=H + '''
m, a, l, b = chain(solver="glpk", solver_args={"set_fixed_flows_once": True})
m.run(); b.max_flow = 3.0; m.run()
assert np.allclose(b.flow, 3.0), b.flow
'''),
dict(id="c07-varying-max", property="C07", needs="a maximum volume that differs between scenarios",
  breaks="the proportional volume of every scenario is of the maximum of the first scenario",
  edits=[("pywr/_core.pyx", "            # Ensure variable maximum volume is taken in to account\n            mxv = self.get_max_volume(si)\n            mnv = self.get_min_volume(si)\n", "            # Ensure variable maximum volume is taken in to account\n            if i == 0:\n                mxv = self.get_max_volume(si)\n                mnv = self.get_min_volume(si)\n")],
  demo=H + '''
m, a, l, b = chain(); sc = Scenario(m, "s", size=2)
s = Storage(m, "s", max_volume=ConstantScenarioParameter(m, sc, [10.0, 20.0]), initial_volume=5.0, initial_volume_pc=0.5)
l.connect(s); s.connect(b); m.step()
assert np.allclose(s.current_pc, s.volume / np.array([10.0, 20.0])), s.current_pc
'''),
dict(id="c08-two-members", property="C08", needs="a virtual storage with two member nodes on the same route",
  breaks="the limit counts only one of two member nodes on the same route, so the volume falls below its minimum",
  edits=[("pywr/solvers/cython_glpk.pyx", "                            cols[n] += storage.factors[i]\n                        except KeyError:\n                            cols[n] = storage.factors[i]\n\n            ind = <int*>malloc((1+len(cols)) * sizeof(int))", "                            cols[n] = max(cols[n], storage.factors[i])\n                        except KeyError:\n                            cols[n] = storage.factors[i]\n\n            ind = <int*>malloc((1+len(cols)) * sizeof(int))")],
  demo=H + '''
for solver in ("glpk",):
    m, a, l, b = chain(solver=solver)
    v = VirtualStorage(m, "v", [a, l], factors=[1.0, 0.5], max_volume=30.0, initial_volume=30.0)
    m.run()
    assert (v.volume >= -1e-6).all(), v.volume
'''),
dict(id="c09-scenario-max", property="C09", needs="an annual virtual storage whose maximum differs between scenarios",
  breaks="at the yearly reset every scenario is replenished to the maximum of the first scenario",
  edits=[("pywr/_core.pyx", "mxv = self._max_volume_param.get_value(si)\n                    # Reset to max", "mxv = self._max_volume_param.get_value(self.model.scenarios.combinations[0])\n                    # Reset to max")],
  demo=H + '''
m, a, l, b = chain(); sc = Scenario(m, "s", size=2)
v = AnnualVirtualStorage(m, "v", nodes=[a], factors=[1.0], max_volume=ConstantScenarioParameter(m, sc, [30.0, 60.0]), initial_volume=20.0, initial_volume_pc=0.5, reset_day=5, reset_month=1)
for i in range(5): m.step()
assert np.allclose(v.volume, [25.0, 55.0]), v.volume
'''),
dict(id="c10-step-length", property="C10", needs="a rolling virtual storage in a run with steps longer than a day",
  breaks="what is returned after the window is the daily use, not that of the whole step",
  edits=[("pywr/_core.pyx", "self._memory[self._memory_pointer, i] = -self._flow[i] * ts.days", "self._memory[self._memory_pointer, i] = -self._flow[i]")],
  demo=H + '''
m, a, l, b = chain(timestep=2)
v = RollingVirtualStorage(m, "v", nodes=[a], factors=[1.0], max_volume=100.0, initial_volume=100.0, timesteps=3)
for i in range(4): m.step()
assert np.allclose(v.volume, 80.0), v.volume
'''),
dict(id="c13-zero-factor", property="C13", needs="a split whose factor for one slot is zero",
  breaks="a slot with a factor of zero is not bound by the ratio at all",
  edits=[("pywr/nodes.py", "                if r is not None:\n                    nodes.append(nd)", "                if r:\n                    nodes.append(nd)")],
  demo=H + '''
m = Model(start="2015-01-01", end="2015-01-03", solver="glpk")
a = Input(m, "a", max_flow=10.0); b = Output(m, "b", cost=-1.0); c = Output(m, "c", cost=-10.0); d = Output(m, "d", cost=-1.0)
s = MultiSplitLink(m, nsteps=1, name="s", extra_slots=2, slot_names=["b", "c", "d"], factors=[1.0, 0.0, 1.0], costs=[0.0], max_flows=[None])
a.connect(s); s.connect(b, from_slot="b"); s.connect(c, from_slot="c"); s.connect(d, from_slot="d")
m.run()
assert np.allclose([b.flow[0], c.flow[0], d.flow[0]], [5, 0, 5]), (b.flow, c.flow, d.flow)
'''),
dict(id="c13-loss-changed", property="C13", needs="the loss factor of a loss link changed from zero to a positive value between two runs",
  breaks="the losses stay closed off, so nothing can flow through the link in the second run",
  edits=[("pywr/nodes.py", "        else:\n            self.output.max_flow = float(\"inf\")\n            if self.loss_factor_type == \"net\":", "        else:\n            if self.loss_factor_type == \"net\":")],
  demo=H + '''
m = Model(start="2015-01-01", end="2015-01-03", solver="glpk")
a = Input(m, "a", max_flow=10.0); b = Output(m, "b", cost=-1.0); s = LossLink(m, "s", loss_factor=0.0)
a.connect(s); s.connect(b); m.run(); assert np.allclose(b.flow, 10)
s.loss_factor = 0.25; m.setup(); m.run()
assert np.allclose(b.flow, 8), b.flow
'''),
dict(id="c14-weekly-combination", property="C14", needs="weekly profiles of a scenario with chosen combinations or a slice",
  breaks="the profile is that of the number of the combination instead of the member of the scenario",
  edits=[("pywr/parameters/_parameters.pyx", "return self._values[scenario_index._indices[self._scenario_index], ts.week_index]", "return self._values[scenario_index.global_id % self._values.shape[0], ts.week_index]")],
  demo=H + '''
m, a, l, b = chain(); sc = Scenario(m, "s", size=3, slice=slice(1, 3))
p = ScenarioWeeklyProfileParameter(m, sc, [[1.0] * 52, [2.0] * 52, [3.0] * 52], name="p"); m.step()
assert np.allclose(p.get_all_values(), [2, 3]), np.array(p.get_all_values())
'''),
]
