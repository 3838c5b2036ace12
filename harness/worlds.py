"""Random pywr models ("worlds") with knobs (inputs that can be changed between runs) and complete observation.
build(case, cfg, solo) builds the model of a case with the knob values of cfg; with solo = a tuple of ensemble
indices it builds the same model without any scenario, holding only that combination's data."""
import datetime, os, random
import numpy as np
import pandas as pd
from common import q, NAN
from pywr._core import AbstractStorage
from pywr.core import (Model, Input, Link, Output, Storage, AggregatedNode, AggregatedStorage, VirtualStorage, Catchment, Reservoir,
                       River, RiverGauge, Scenario, PiecewiseLink)
from pywr.nodes import (LossLink, DelayNode, BreakLink, MultiSplitLink, AnnualVirtualStorage, SeasonalVirtualStorage,
                        MonthlyVirtualStorage, RollingVirtualStorage)
from pywr.domains.river import RiverSplit, RiverSplitWithGauge
import pywr.parameters as P
import pywr.parameters.control_curves as CC
from pywr.parameters import parameters as PP
from pywr.parameters.licenses import TimestepLicense, AnnualLicense, AnnualExponentialLicense, AnnualHyperbolaLicense
from pywr.parameters.groundwater import KeatingStreamFlowParameter
import pywr.recorders as R
from pywr.recorders import Recorder
from pywr.recorders.events import EventRecorder, EventDurationRecorder, EventStatisticRecorder
from pywr.recorders._thresholds import StorageThresholdRecorder, NodeThresholdRecorder


class World:
    pass


class Observer(Recorder):
    """records the state of everything after each timestep"""
    def __init__(self, w):
        self.w, self.rows = w, []
        super().__init__(w.m, name="zz observer")

    def after(self):
        self.rows.append(snapshot(self.w))


def snapshot(w):
    """[scenario][quantity] after a timestep, as floats"""
    cols = []
    for n in w.nodes():
        cols.append(np.array(n.flow))
        if hasattr(n, "volume"):
            cols.append(np.array(n.volume))
            cols.append(np.array(n.current_pc))
    for p in w.params:
        cols.append(np.array(p.get_all_values()))
    a = np.array(cols, dtype=float)
    return a.T.copy()


def labels(w):
    out = []
    for n in w.nodes():
        out.append("flow:" + n.name)
        if hasattr(n, "volume"):
            out += ["volume:" + n.name, "pc:" + n.name]
    return out + ["param:%s:%s" % (p.name, type(p).__name__) for p in w.params]


# ---------------------------------------------------------------------------------------------- leaf parameters
LEAFS = ["const", "array", "arrays", "consts", "factors", "df", "dfs", "month", "week", "daily", "smonth", "sweek", "sdaily",
         "harm", "rbf", "monthi", "indexed", "wrap", "agg", "unif", "binary", "logistic", "rect", "disc"]


def leaf(w, lo=1.0, hi=10.0, kind=None):
    """a positive parameter varying in time and scenario"""
    rng, m = w.rng, w.m
    kind = kind or rng.choice(LEAFS)
    k = len(w.params)
    name = "p%d_%s" % (k, kind)

    def val():
        return round(rng.uniform(lo, hi), 3)

    def vals(n):
        return [val() for _ in range(n)]
    n = w.nmax
    si = rng.randrange(len(w.sizes)) if w.sizes else None
    size = w.sizes[si] if w.sizes else 1
    sc = None if (w.solo is not None or si is None) else w.scens[si]
    pick = w.solo[si] if (w.solo is not None and si is not None) else 0
    kw = {"name": name}
    if kind == "const":
        p = P.ConstantParameter(m, w.cfgval(name, val()), **kw)

        def setc(v, p=p):
            p.set_double_variables(np.array([v]))
        w.knob(name, setc, val)
    elif kind == "array":
        p = P.ArrayIndexedParameter(m, vals(n), **kw)
    elif kind == "arrays":
        v = np.array([vals(size) for _ in range(n)])
        p = P.ArrayIndexedScenarioParameter(m, sc, v, **kw) if sc else P.ArrayIndexedParameter(m, v[:, pick], **kw)
    elif kind == "consts":
        v = vals(size)
        p = P.ConstantScenarioParameter(m, sc, v, **kw) if sc else P.ConstantParameter(m, v[pick], **kw)
    elif kind == "factors":
        v, f = np.array(vals(n)), np.array([[round(rng.uniform(0.5, 1.5), 3) for _ in range(12)] for _ in range(size)])
        if sc:
            p = P.ArrayIndexedScenarioMonthlyFactorsParameter(m, sc, v, f, **kw)
        else:
            a = P.ArrayIndexedParameter(m, v, name=name + "a")
            b = P.MonthlyProfileParameter(m, f[pick], name=name + "b")
            p = P.AggregatedParameter(m, [a, b], agg_func="product", **kw)
    elif kind in ("df", "dfs"):
        idx = w.dfindex()
        nc = size if kind == "dfs" else 1
        v = np.array([vals(nc) for _ in idx])
        off = rng.choice([0, 0, 1, -1])
        if kind == "dfs" and sc:
            p = P.DataFrameParameter(m, pd.DataFrame(v, index=idx, columns=["c%d" % i for i in range(nc)]), scenario=sc,
                                     timestep_offset=off, **kw)
        else:
            p = P.DataFrameParameter(m, pd.DataFrame(v[:, [pick if kind == "dfs" else 0]], index=idx, columns=["c"]),
                                     timestep_offset=off, **kw)
    elif kind in ("month", "monthi"):
        p = P.MonthlyProfileParameter(m, vals(12), interp_day=rng.choice(["first", "last"]) if kind == "monthi" else None, **kw)
    elif kind == "week":
        p = P.WeeklyProfileParameter(m, vals(52), **kw)
    elif kind == "daily":
        p = P.DailyProfileParameter(m, vals(366), **kw)
    elif kind == "smonth":
        v = np.array([vals(12) for _ in range(size)])
        p = P.ScenarioMonthlyProfileParameter(m, sc, v, **kw) if sc else P.MonthlyProfileParameter(m, v[pick], **kw)
    elif kind == "sweek":
        v = np.array([vals(52) for _ in range(size)])
        p = P.ScenarioWeeklyProfileParameter(m, sc, v, **kw) if sc else P.WeeklyProfileParameter(m, v[pick], **kw)
    elif kind == "sdaily":
        v = np.array([vals(366) for _ in range(size)])
        p = P.ScenarioDailyProfileParameter(m, sc, v, **kw) if sc else P.DailyProfileParameter(m, v[pick], **kw)
    elif kind == "harm":
        c = (lo + hi) / 2
        p = P.AnnualHarmonicSeriesParameter(m, c, [c / 4, c / 8], [0.3, 1.1], **kw)
    elif kind == "rbf":
        p = P.RbfProfileParameter(m, [1, 90, 180, 270], vals(4), **kw)
    elif kind == "indexed":
        v = [rng.randrange(2) for _ in range(size)]
        a, b = P.ArrayIndexedParameter(m, vals(n), name=name + "a"), P.ConstantParameter(m, val(), name=name + "b")
        if sc:
            ip = P.ConstantScenarioIndexParameter(m, sc, v, name=name + "i")
            p = P.IndexedArrayParameter(m, ip, [a, b], **kw)
        else:
            p = P.AggregatedParameter(m, [[a, b][v[pick]]], agg_func="sum", **kw)
    elif kind == "wrap":
        ps = [P.ArrayIndexedParameter(m, vals(n), name="%sw%d" % (name, i)) for i in range(size)]
        if sc:
            p = PP.ScenarioWrapperParameter(m, sc, ps, **kw)
        else:
            p = P.AggregatedParameter(m, [ps[pick]], agg_func="sum", **kw)
    elif kind == "agg":
        ps = [leaf(w, lo, hi, rng.choice(["const", "array", "arrays", "consts", "month", "dfs"])) for _ in range(rng.randrange(2, 4))]
        p = P.AggregatedParameter(m, ps, agg_func=rng.choice(["min", "max", "mean", "median"]), **kw)
    elif kind == "unif":
        a = P.UniformDrawdownProfileParameter(m, rng.randrange(1, 28), rng.randrange(1, 13), rng.randrange(0, 10), name=name + "u")
        p = P.AggregatedParameter(m, [a, P.ConstantParameter(m, hi, name=name + "c")], agg_func="product", **kw)
    elif kind == "binary":
        p = P.BinaryStepParameter(m, 1.0, output=val(), **kw)
        w.knob(name, lambda v, p=p: p.set_double_variables(np.array([v])), lambda: rng.choice([-0.5, 0.5]), dflt=1.0)
    elif kind == "logistic":
        p = P.LogisticParameter(m, 0.5, max_output=hi, **kw)
        w.knob(name, lambda v, p=p: p.set_double_variables(np.array([v])), lambda: rng.choice([-1.5, 2.5]), dflt=0.5)
    elif kind == "rect":
        p = P.RectifierParameter(m, 0.5, min_output=lo, max_output=hi, **kw)
        w.knob(name, lambda v, p=p: p.set_double_variables(np.array([v])), lambda: rng.choice([-0.5, 0.25, 0.75]), dflt=0.5)
    elif kind == "disc":
        a = P.DiscountFactorParameter(m, 0.05, 2010, name=name + "d")
        p = P.AggregatedParameter(m, [a, P.ConstantParameter(m, hi, name=name + "c")], agg_func="product", **kw)
    w.params.append(p)
    return p


# ------------------------------------------------------------------------------------------------- sub-networks
def nm(w, s):
    w.count += 1
    return "%s%d" % (s, w.count)


def cost(w, lo=0.1, hi=2.0):
    return round(w.rng.uniform(lo, hi), 5)


def limit(w, node, attr, lo, hi):
    """a limit that is a constant which can be changed, or a varying parameter"""
    if w.rng.random() < 0.5 or w.solver == "lpsolve" and isinstance(node, AggregatedNode):   # (refused by lpsolve)
        name = "%s.%s" % (node.name, attr)
        dflt = round(w.rng.uniform(lo, hi), 3)
        setattr(node, attr, dflt)
        w.knob(name, lambda v: setattr(node, attr, v), lambda: round(w.rng.uniform(lo, hi), 3), dflt=dflt)
    else:
        setattr(node, attr, leaf(w, lo, hi))


def supply(w, lo=2.0, hi=12.0):
    s = Input(w.m, nm(w, "supply"), cost=cost(w))
    limit(w, s, "max_flow", lo, hi)
    return s


def demand(w, lo=2.0, hi=10.0):
    d = Output(w.m, nm(w, "demand"))
    limit(w, d, "max_flow", lo, hi)
    if w.rng.random() < 0.3:
        limit(w, d, "cost", -60.0, -20.0)
    else:
        d.cost = -cost(w, 20, 60)
    return d


def f_basic(w):
    a, b, d = supply(w), supply(w), demand(w)
    l = Link(w.m, nm(w, "link"), cost=cost(w, 0, 1))
    a.connect(l)
    b.connect(l)
    l.connect(d)
    w.flownodes += [a, b, d, l]
    return a, d


def storage_net(w, cls=Storage):
    c = Catchment(w.m, nm(w, "catch"), cost=cost(w, 0, .1), flow=leaf(w, 1.0, 8.0))
    name = nm(w, "store")
    kw = {}
    mx = round(w.rng.uniform(40, 90), 2)
    iv = round(w.rng.uniform(10, 39), 2)
    init = w.rng.choice(["abs", "pc"])
    if init == "pc":
        kw["initial_volume_pc"] = iv / 100
    else:
        kw["initial_volume"] = iv
    s = cls(w.m, name, max_volume=mx, min_volume=w.rng.choice([0.0, 5.0]), cost=-cost(w, 1, 5), **kw)
    w.knob(name + ".init", lambda v: setattr(s, "initial_volume_pc" if init == "pc" else "initial_volume", v / 100 if init == "pc" else v),
           lambda: round(w.rng.uniform(10, 39), 2), dflt=iv)
    if w.rng.random() < 0.4:
        w.knob(name + ".max", lambda v: setattr(s, "max_volume", v), lambda: round(w.rng.uniform(40, 90), 2), dflt=mx)
    spill = Output(w.m, nm(w, "spill"), cost=cost(w, 0, .1))
    d = demand(w)
    riv = Link(w.m, nm(w, "riv"), cost=cost(w, 0, .1))
    c.connect(riv)
    riv.connect(s)
    riv.connect(spill)
    s.connect(d)
    s.connect(spill)
    w.stores.append(s)
    w.flownodes += [c, d, riv, spill]
    return c, s, d


def f_storage(w):
    rng, m = w.rng, w.m
    c, s, d = storage_net(w)
    k = rng.choice(["cc", "cci", "ccp", "ccidx", "thr", "poly", "ivol", "storp", "keating", "none", "wavg"])
    name = nm(w, "cc_" + k)
    curve = P.MonthlyProfileParameter(m, [round(rng.uniform(.3, .9), 3) for _ in range(12)], name=name + "curve")
    if k == "cc":
        p = CC.ControlCurveParameter(m, s, [curve, 0.2], values=[1.0, 0.7, 0.4], name=name)
    elif k == "cci":
        p = CC.ControlCurveInterpolatedParameter(m, s, [curve, 0.2], values=[1.0, 0.8, 0.5, 0.2], name=name)
    elif k == "ccp":
        p = CC.ControlCurvePiecewiseInterpolatedParameter(m, s, [curve, 0.2], [[1.0, 0.9], [0.7, 0.6], [0.4, 0.2]], name=name)
    elif k == "ccidx":
        i = CC.ControlCurveIndexParameter(m, s, [curve, 0.2], name=name + "i")
        w.params.append(i)
        w.indices.append(i)
        p = P.IndexedArrayParameter(m, i, [1.0, 0.7, leaf(w, .3, .5)], name=name)
    elif k == "thr":
        t = P.StorageThresholdParameter(m, s, round(rng.uniform(15, 35), 3), values=[1.0, 0.5], predicate=rng.choice(["LT", "GT", "LE", "GE"]),
                                        ratchet=rng.random() < 0.7, name=name)
        w.params.append(t)
        w.indices.append(t)
        p = t
    elif k == "poly":
        p = P.Polynomial1DParameter(m, [0.2, 0.01], storage_node=s, name=name)
    elif k == "ivol":
        p = PP.InterpolatedVolumeParameter(m, s, [0, 20, 50, 200], [0.2, 0.5, 0.9, 1.0], name=name)
    elif k == "storp":
        p = P.StorageParameter(m, s, use_proportional_volume=True, name=name)
    elif k == "keating":
        s.level = PP.InterpolatedVolumeParameter(m, s, [0, 200], [0.0, 10.0], name=name + "lev")
        p = KeatingStreamFlowParameter(m, s, [0.5, 1.0], [0.2, 0.3], name=name)
    elif k == "wavg":
        p = P.WeightedAverageProfileParameter(m, [s], [curve], name=name)
    else:
        return
    w.params.append(p)
    f = P.AggregatedParameter(m, [p, P.ConstantParameter(m, 7.0, name=name + "x")], agg_func="product", name=name + "y")
    w.params.append(f)
    d.max_flow = f
    w.knobs.pop(d.name + ".max_flow", None)


def f_reservoir(w):
    c, s, d = storage_net(w, lambda m, name, **k: Reservoir(m, name, control_curve=0.6, above_curve_cost=-0.5, **k))
    c2, s2, d2 = storage_net(w)
    a = AggregatedStorage(w.m, nm(w, "aggstore"), [s, s2])
    i = CC.ControlCurveIndexParameter(w.m, a, [0.6, 0.4], name=nm(w, "aggcc"))
    w.params.append(i)
    w.indices.append(i)
    w.stores.append(a)
    p = P.IndexedArrayParameter(w.m, i, [6.0, 4.0, 2.0], name=nm(w, "aggsave"))
    w.params.append(p)
    d.max_flow = p
    w.knobs.pop(d.name + ".max_flow", None)


def f_virtual(w, k=None):
    rng, m = w.rng, w.m
    a, d = f_basic(w)
    k = k or rng.choice(["plain", "annual", "seasonal", "monthly", "rolling"])
    mx = round(rng.uniform(60, 300), 2)
    kw = dict(max_volume=mx, factors=[rng.choice([1.0, 0.5, 2.0])])
    name = nm(w, "virt_" + k)
    init = rng.choice(["abs", "pc"])
    pc = round(rng.uniform(.2, 1), 3)
    if init == "pc":
        kw["initial_volume_pc"] = pc
    else:
        kw["initial_volume"] = mx * pc
    rs = dict(reset_day=rng.randrange(1, 28), reset_month=rng.randrange(1, 13), reset_to_initial_volume=rng.random() < 0.4)
    if k == "plain":
        v = VirtualStorage(m, name, [a], **kw)
    elif k == "annual":
        v = AnnualVirtualStorage(m, name, nodes=[a], **kw, **rs)
    elif k == "seasonal":
        v = SeasonalVirtualStorage(m, name, nodes=[a], end_day=rng.randrange(1, 28), end_month=rng.randrange(1, 13), **kw, **rs)
    elif k == "monthly":
        v = MonthlyVirtualStorage(m, name, [a], months=rng.choice([1, 2, 3]), initial_months=rng.choice([0, 1]),
                                  reset_to_initial_volume=rs["reset_to_initial_volume"], **kw)
    else:
        v = RollingVirtualStorage(m, name, [a], timesteps=rng.choice([2, 3, 4]), **kw)
    w.knob(name + ".init", lambda x: setattr(v, "initial_volume_pc" if init == "pc" else "initial_volume", x if init == "pc" else x * mx),
           lambda: round(rng.uniform(.2, 1), 3), dflt=pc)
    w.stores.append(v)


def f_agg(w):
    rng, m = w.rng, w.m
    a, b, d = supply(w), supply(w), demand(w)
    a.connect(d)
    b.connect(d)
    g = AggregatedNode(m, nm(w, "agg"), [a, b])
    k = rng.choice(["factors", "max", "weights"])
    if k == "factors":
        g.factors = [1.0, round(rng.uniform(.5, 2), 2)]
    elif k == "weights":
        g.flow_weights = [1.0, round(rng.uniform(.5, 2), 2)]
        limit(w, g, "max_flow", 3.0, 9.0)
    else:
        limit(w, g, "max_flow", 3.0, 9.0)
    w.flownodes += [a, b, d, g]


def f_compound(w, k=None):
    rng, m = w.rng, w.m
    a, d = supply(w, 8.0, 15.0), demand(w)
    k = k or rng.choice(["loss", "lossp", "lossg", "piece", "multi", "gauge", "split", "splitg", "break", "delay", "delayd"])
    name = nm(w, k)
    if k == "loss" or k == "lossp" and w.solver == "lpsolve":
        x = LossLink(m, name, loss_factor=round(rng.uniform(.05, .3), 3))
    elif k == "lossp" and w.solver != "lpsolve":      # lpsolve refuses factors that vary
        x = LossLink(m, name, loss_factor=leaf(w, .05, .3))
    elif k == "lossg":
        x = LossLink(m, name, loss_factor=0.2, loss_factor_type="gross")
    elif k == "piece":
        x = PiecewiseLink(m, nsteps=3, name=name, max_flows=[round(rng.uniform(1, 3), 2), leaf(w, 1, 3), None],
                          costs=[-cost(w, 1, 2), cost(w, 0, .5), cost(w, .6, 1)])
    elif k == "multi":
        x = MultiSplitLink(m, nsteps=1, name=name, extra_slots=1, slot_names=["x", "y"], factors=[3, 1], costs=[0.0], max_flows=[None])
    elif k == "gauge":
        x = RiverGauge(m, name=name, mrf=leaf(w, 1, 3), mrf_cost=-cost(w, 70, 90), cost=cost(w, 0, 1))
    elif k == "split":
        x = RiverSplit(m, name=name, factors=[2, 1], slot_names=["x", "y"])
    elif k == "splitg":
        x = RiverSplitWithGauge(m, name=name, mrf=leaf(w, 1, 3), mrf_cost=-cost(w, 70, 90), cost=cost(w, 0, 1), factors=[2, 1], slot_names=["x", "y"])
    elif k == "break":
        x = BreakLink(m, name)
    elif k == "delay":
        x = DelayNode(m, name, timesteps=rng.choice([1, 2, 3]), initial_flow=round(rng.uniform(0, 2), 2))
    else:
        x = DelayNode(m, name, days=w.step * rng.choice([1, 2]), initial_flow=round(rng.uniform(0, 2), 2))
    a.connect(x)
    if k in ("multi", "split", "splitg"):
        x.connect(d, from_slot="x")
        o = Output(m, nm(w, "side"), cost=cost(w, 0, 1))
        x.connect(o, from_slot="y")
    else:
        x.connect(d)
    if k in ("delay", "delayd"):
        o = Output(m, nm(w, "side"), cost=cost(w, 0, 1))
        x.connect(o)
    w.flownodes += [a, d, x]


def f_licence(w, k=None):
    rng, m = w.rng, w.m
    a, d = f_basic(w)
    k = k or rng.choice(["ts", "annual", "exp", "hyp"])
    name = nm(w, "lic_" + k)
    if k == "ts":
        p = TimestepLicense(m, a, round(rng.uniform(2, 6), 2), name=name)
    elif k == "annual":
        p = AnnualLicense(m, a, round(rng.uniform(300, 1500), 2), name=name)
    elif k == "exp":
        p = AnnualExponentialLicense(m, a, 1000.0, max_value=20.0, k=0.8, name=name)
    else:
        p = AnnualHyperbolaLicense(m, a, 1000.0, value=3.0, name=name)
    a.max_flow = p
    w.knobs.pop(a.name + ".max_flow", None)
    w.params.append(p)


def f_memory(w, k=None):
    rng, m = w.rng, w.m
    a, d = f_basic(w)
    a2, d2 = f_basic(w)
    k = k or rng.choice(["delay", "mean", "meand", "deficit", "flow", "iflow", "nthr", "mthr", "rthr"])
    name = nm(w, "mem_" + k)
    if k == "delay":
        p = P.FlowDelayParameter(m, a, timesteps=rng.choice([1, 2, 3]), initial_flow=1.5, name=name)
    elif k == "mean":
        p = P.RollingMeanFlowNodeParameter(m, a, timesteps=rng.choice([2, 3]), initial_flow=1.5, name=name)
    elif k == "meand":
        p = P.RollingMeanFlowNodeParameter(m, a, days=w.step * rng.choice([2, 3]), initial_flow=1.5, name=name)
    elif k == "deficit":
        p = P.DeficitParameter(m, d, name=name)
    elif k == "flow":
        p = P.FlowParameter(m, d, name=name)
    elif k == "iflow":
        p = PP.InterpolatedFlowParameter(m, d, [0, 5, 100], [1.0, 3.0, 4.0], name=name)
    elif k == "nthr":
        p = P.NodeThresholdParameter(m, d, round(rng.uniform(3, 7), 4), values=[1.0, 4.0], predicate=rng.choice(["LT", "GT"]),
                                     ratchet=rng.random() < .6, name=name)
        w.indices.append(p)
    elif k == "mthr":
        i = P.MultipleThresholdIndexParameter(m, d, [6.123, leaf(w, 2, 5)], name=name + "i")
        w.params.append(i)
        w.indices.append(i)
        p = P.IndexedArrayParameter(m, i, [1.0, 2.0, 4.0], name=name)
    else:
        r = R.NumpyArrayNodeRecorder(m, d, name=name + "r")
        p = P.RecorderThresholdParameter(m, r, round(rng.uniform(3, 7), 4), values=[1.0, 4.0], predicate="GT",
                                         ratchet=rng.random() < .6, initial_value=rng.choice([0, 1]), name=name)
        w.indices.append(p)
    w.params.append(p)
    f = P.AggregatedParameter(m, [p, P.ConstantParameter(m, 0.7, name=name + "x")], agg_func="sum", name=name + "y")
    w.params.append(f)
    a2.max_flow = f
    w.knobs.pop(a2.name + ".max_flow", None)


def f_hydro(w):
    rng, m = w.rng, w.m
    c, s, d = storage_net(w)
    lev = PP.InterpolatedVolumeParameter(m, s, [0, 200], [50.0, 90.0], name=nm(w, "lev"))
    s.level = lev
    w.params.append(lev)
    p = P.HydropowerTargetParameter(m, leaf(w, 1.0, 5.0), water_elevation_parameter=lev, max_flow=P.ConstantParameter(m, 9.0, name=nm(w, "c")),
                                    turbine_elevation=30.0, min_head=2.0, name=nm(w, "hydro"), energy_unit_conversion=1e-6,
                                    flow_unit_conversion=1.0)
    w.params.append(p)
    w.hydro = (d, lev)
    q_ = P.AggregatedParameter(m, [p, P.ConstantParameter(m, 6.0, name=nm(w, "c"))], agg_func="min", name=nm(w, "hq"))
    w.params.append(q_)
    d.max_flow = q_
    w.knobs.pop(d.name + ".max_flow", None)


FEATURES = [f_basic, f_storage, f_storage, f_reservoir, f_virtual, f_virtual, f_agg, f_compound, f_compound, f_licence, f_memory, f_memory, f_hydro]


# ------------------------------------------------------------------------------------------------------ recorders
def add_recorders(w):
    rng, m = w.rng, w.m
    out = w.recs
    if not w.params:
        leaf(w)
    stores = [s for s in w.stores if isinstance(s, Storage)]
    agg = lambda: dict(agg_func=rng.choice(["sum", "max", "min", "mean", "median", "product"]))
    tagg = lambda: dict(temporal_agg_func=rng.choice(["sum", "max", "min", "mean", "median"]))
    node = lambda: rng.choice(w.flownodes)
    lim = lambda: rng.choice([n for n in w.flownodes if isinstance(n, Output) or type(n) is Input])
    par = lambda: rng.choice([p for p in w.params])
    N = lambda s: nm(w, "rec_" + s)
    out.append(R.NumpyArrayNodeRecorder(m, node(), name=N("flow"), factor=rng.choice([1.0, 2.0]), **agg(), **tagg()))
    out.append(R.NumpyArrayNodeDeficitRecorder(m, lim(), name=N("def"), **agg(), **tagg()))
    out.append(R.NumpyArrayNodeSuppliedRatioRecorder(m, lim(), name=N("sup"), **tagg()))
    out.append(R.NumpyArrayNodeCurtailmentRatioRecorder(m, lim(), name=N("cur"), **tagg()))
    out.append(R.NumpyArrayNodeCostRecorder(m, rng.choice([n for n in w.flownodes if not isinstance(n, AggregatedNode)]), name=N("cost"), **tagg()))
    out.append(R.FlowDurationCurveRecorder(m, node(), [10.0, 50.0, 95.0], name=N("fdc"), **agg()))
    out.append(R.SeasonalFlowDurationCurveRecorder(m, node(), [20.0, 50.0], list(range(1, 13)), name=N("sfdc")))
    out.append(R.NumpyArrayParameterRecorder(m, par(), name=N("par"), **tagg()))
    out.append(R.NumpyArrayDailyProfileParameterRecorder(m, par(), name=N("dprof"), **tagg()))
    out.append(R.RollingWindowParameterRecorder(m, par(), 3, temporal_agg_func="mean", name=N("rwin")))
    out.append(R.RollingMeanFlowNodeRecorder(m, node(), timesteps=2, name=N("rmean")))
    out.append(R.TotalDeficitNodeRecorder(m, lim(), name=N("tdef")))
    out.append(R.TotalFlowNodeRecorder(m, node(), name=N("tflow"), factor=2.0))
    out.append(R.MeanFlowNodeRecorder(m, node(), name=N("mflow")))
    out.append(R.DeficitFrequencyNodeRecorder(m, lim(), name=N("dfreq")))
    out.append(R.TotalParameterRecorder(m, par(), name=N("tpar"), integrate=rng.random() < .5))
    out.append(R.MeanParameterRecorder(m, par(), name=N("mpar")))
    out.append(R.AnnualTotalFlowRecorder(m, N("annual"), [node(), node()]))
    out.append(R.AggregatedRecorder(m, [out[0], out[-2]], recorder_agg_func="sum", name=N("agg")))
    out.append(NodeThresholdRecorder(m, node(), 4.321, predicate="GT", name=N("nthr")))
    ev = EventRecorder(m, out[-1], minimum_event_length=rng.choice([1, 2]), name=N("event"), tracked_parameter=par(), event_agg_func="sum")
    out.append(ev)
    out.append(EventDurationRecorder(m, ev, name=N("evdur"), recorder_agg_func="max"))
    out.append(EventStatisticRecorder(m, ev, name=N("evstat"), event_agg_func="max", recorder_agg_func="sum"))
    if stores:
        s = rng.choice(stores)
        out.append(R.NumpyArrayStorageRecorder(m, s, name=N("vol"), proportional=rng.random() < .5, **tagg()))
        out.append(R.NumpyArrayNormalisedStorageRecorder(m, s, parameter=P.ConstantParameter(m, 0.5, name=nm(w, "half")), name=N("norm")))
        out.append(R.StorageDurationCurveRecorder(m, s, [10.0, 60.0], name=N("sdc")))
        out.append(R.MinimumVolumeStorageRecorder(m, s, name=N("minv")))
        out.append(R.MinimumThresholdVolumeStorageRecorder(m, s, 20.0, name=N("minthr")))
        out.append(StorageThresholdRecorder(m, s, 25.0, predicate="LT", name=N("sthr")))
    if w.indices:
        i = rng.choice(w.indices)
        out.append(R.NumpyArrayIndexParameterRecorder(m, i, name=N("idx")))
        out.append(R.TimestepCountIndexParameterRecorder(m, i, 1, name=N("tcount")))
        out.append(R.AnnualCountIndexParameterRecorder(m, i, 1, name=N("aci")))
        out.append(R.AnnualCountIndexThresholdRecorder(m, [i], N("acit"), 1))
        out.append(EventRecorder(m, i, name=N("ievent")))
    if w.hydro:
        d, lev = w.hydro
        out.append(R.HydropowerRecorder(m, d, water_elevation_parameter=lev, turbine_elevation=30.0, name=N("hyrec")))
        out.append(R.TotalHydroEnergyRecorder(m, d, water_elevation_parameter=lev, turbine_elevation=30.0, name=N("hyen")))
        out.append(R.NumpyArrayLevelRecorder(m, [s for s in stores if s.level is lev][0], name=N("level")))


def rec_values(r):
    """everything a recorder reports, per scenario"""
    out = []
    try:
        v = np.asarray(r.values(), dtype=float)
    except NotImplementedError:
        v = None
    if v is not None and v.ndim == 1:
        out.append(v)
    if isinstance(r, EventRecorder):
        n = len(r.model.scenarios.combinations)
        e = [[] for _ in range(n)]
        for x in r.events:
            e[x.scenario_index.global_id] += [x.start.datetime.toordinal() - 735000, x.end.datetime.toordinal() - 735000,
                                              -1 if x.values is None else float(np.sum(np.array(x.values, dtype=float)))]
        return {"v": [list(a) for a in zip(*out)] if out else [[] for _ in range(n)], "e": e}
    return {"v": [[float(a[i]) for a in out] for i in range(len(r.model.scenarios.combinations))], "e": []}


# ---------------------------------------------------------------------------------------------------------- build
def build(case, cfg, solo=None, observe=True):
    w = World()
    w.rng = random.Random(case["seed"])
    w.sizes, w.solo, w.step, w.cfg = case["sizes"], solo, case["step"], cfg
    w.params, w.flownodes, w.stores, w.indices, w.recs, w.knobs, w.count, w.hydro = [], [], [], [], [], {}, 0, None
    w.nmax, w.solver = case["nmax"], case["solver"]
    m = w.m = Model(solver=case["solver"], start=cfg["start"], end=cfg["end"], timestep=case["step"],
                    **({"solver_args": case["solver_args"]} if case.get("solver_args") else {}))
    w.scens = []
    if solo is None:
        for k, n in enumerate(w.sizes):
            w.scens.append(Scenario(m, "sc%d" % k, size=n))
        set_scenarios(w, cfg)
    w.dfindex = lambda: pd.date_range(case["dfstart"], case["dfend"], freq="D")

    def knob(name, setter, gen, dflt=None):
        w.knobs[name] = (setter, gen)
        if name in cfg["knobs"]:
            setter(cfg["knobs"][name])
    w.knob = knob
    w.cfgval = lambda name, v: cfg["knobs"].get(name, v)
    for f in case["features"]:
        FEATURES[f](w)
    w.nfeat = len(w.params)
    if case["recs"]:
        add_recorders(w)
    w._nodes = None

    def nodes():
        if w._nodes is None:
            # not the inner halves of a storage: what passes straight through it at no net cost may as well go past it, and
            # which of the two a solver picks is nobody's business (the storage's own flow and volume are recorded)
            w._nodes = sorted([n for n in m.graph.nodes() if not isinstance(n.parent, AbstractStorage)], key=lambda n: n.name)
        return w._nodes
    w.nodes = nodes
    w.obs = Observer(w) if observe else None
    return w


def set_scenarios(w, cfg):
    sel = cfg.get("select")
    w.m.scenarios.user_combinations = None
    for s in w.scens:
        s.slice = None
    if not sel:
        return
    if sel[0] == "slices":
        for s, (a, b) in zip(w.scens, sel[1]):
            s.slice = slice(a, b)
    else:
        w.m.scenarios.user_combinations = sel[1]


def reconfigure(w, cfg):
    """apply the inputs of another configuration to an existing model"""
    w.m.timestepper.start, w.m.timestepper.end = cfg["start"], cfg["end"]
    if w.scens and cfg.get("select") != w.cfg.get("select"):
        set_scenarios(w, cfg)
        w.m.dirty = True
    for k, v in cfg["knobs"].items():
        w.knobs[k][0](v)
    w.cfg = cfg


def combos(case, cfg):
    import itertools
    if not case["sizes"]:
        return [()]
    sel = cfg.get("select")
    if sel and sel[0] == "combos":
        return [tuple(c) for c in sel[1]]
    rs = [list(range(n)) for n in case["sizes"]]
    if sel:
        rs = [r[a:b] for r, (a, b) in zip(rs, sel[1])]
    return list(itertools.product(*rs))


def gen_case(rng, nfeat=None, scen=None):
    step = rng.choice([1, 1, 3, 7, 30])
    start = datetime.date(rng.choice([2015, 2016, 2019, 2020]), rng.randrange(1, 13), rng.randrange(1, 28))
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([0, 1, 1, 2]) if scen is None else scen)]
    n = rng.randrange(4, 10)
    case = {"seed": rng.randrange(10 ** 9), "sizes": sizes, "step": step, "solver": rng.choice(["glpk", "glpk-edge", "lpsolve"]),
            "nmax": 40, "features": [rng.randrange(len(FEATURES)) for _ in range(nfeat or rng.choice([1, 2, 2, 3]))], "recs": rng.random() < 0.7,
            "dfstart": (start - datetime.timedelta(days=60)).isoformat(), "dfend": (start + datetime.timedelta(days=step * 40 + 400)).isoformat()}
    cfg = {"start": start.isoformat(), "end": (start + datetime.timedelta(days=step * n - 1)).isoformat(), "knobs": {}, "select": None}
    if sizes and rng.random() < 0.5:
        cfg["select"] = gen_select(rng, sizes)
    if rng.random() < 0.3 and case["solver"] != "lpsolve":
        # the solver options which are meant to change nothing but speed; the bounds that are set once are read when a run begins
        opts = ["use_presolve", "use_unsafe_api", "set_fixed_flows_once", "set_fixed_factors_once"]
        case["solver_args"] = {k: True for k in rng.sample(opts, rng.randrange(1, 4))}
    return case, cfg


def gen_select(rng, sizes):
    if rng.random() < 0.4:
        sl = []
        for n in sizes:
            a = rng.randrange(n)
            sl.append([a, rng.randrange(a + 1, n + 1)])
        return ["slices", sl]
    k = rng.randrange(1, 4)
    return ["combos", [[rng.randrange(n) for n in sizes] for _ in range(k)]]


def gen_cfg(rng, case, cfg, knobnames):
    """another configuration: some inputs changed (knob values are drawn when applied)"""
    c = {"start": cfg["start"], "end": cfg["end"], "knobs": dict(cfg["knobs"]), "select": cfg["select"]}
    return c
