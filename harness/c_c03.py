"""C03: evaluation order of components (probes and every built-in combining component)."""
import json
import numpy as np
from common import q
from probes import *
import pywr.parameters as P
import pywr.parameters.control_curves as CC
import pywr.recorders as R
from pywr.parameters import parameters as PP
from pywr._model import ModelStructureError

NTS = 4


def table(rng, kind):
    if kind == "i":
        t = [rng.randrange(0, 2) for _ in range(NTS)]
        if len(set(t)) == 1:
            t[rng.randrange(NTS)] = 1 - t[0]
        return t
    return [rng.randrange(1, 200) / 256.0 for _ in range(NTS)]


def V(log, cls):
    key = ("V", cls)
    c = log.index.get(key)
    if c is None:
        c = log.index[key] = value_probe(cls, log)
    return c


def mk(log, cls, *a, **k):
    c = V(log, cls)
    o = c.__new__(c, *a, **k)
    o.pid = log.new()
    if cls is not R.AnnualCountIndexThresholdRecorder:
        k.setdefault("name", "c%d" % o.pid)
    o.__init__(*a, **k)
    return o


class Env:
    pass


# name -> (kinds of children, kind of the result, builder); children are parameters ("f" float valued, "i" index valued)
def catalogue():
    c = {}

    def add(name, kinds, out, f):
        c[name] = (kinds, out, f)
    add("neg", "f", "f", lambda e, k: e.mk(P.NegativeParameter, e.m, k[0]))
    add("max", "f", "f", lambda e, k: e.mk(P.MaxParameter, e.m, k[0], threshold=0.3))
    add("negmax", "f", "f", lambda e, k: e.mk(P.NegativeMaxParameter, e.m, k[0], threshold=-0.3))
    add("min", "f", "f", lambda e, k: e.mk(P.MinParameter, e.m, k[0], threshold=0.4))
    add("negmin", "f", "f", lambda e, k: e.mk(P.NegativeMinParameter, e.m, k[0], threshold=-0.4))
    add("offset", "f", "f", lambda e, k: e.mk(P.OffsetParameter, e.m, k[0], offset=0.25))
    add("div", "ff", "f", lambda e, k: e.mk(P.DivisionParameter, e.m, k[0], k[1]))
    for fn in ("sum", "product", "max", "min", "mean", "median"):
        add("agg_" + fn, "fff", "f", lambda e, k, fn=fn: e.mk(P.AggregatedParameter, e.m, k, agg_func=fn))
    add("agg_custom", "ff", "f", lambda e, k: e.mk(P.AggregatedParameter, e.m, k, agg_func=lambda v: v[0] - v[1]))
    for fn in ("sum", "product", "max", "min", "any", "all"):
        add("aggi_" + fn, "ii", "i", lambda e, k, fn=fn: e.mk(P.AggregatedIndexParameter, e.m, k, agg_func=fn))
    add("indexed", "iff", "f", lambda e, k: e.mk(P.IndexedArrayParameter, e.m, k[0], [k[1], k[2]]))
    add("pwint", "f", "f", lambda e, k: e.mk(P.PiecewiseIntegralParameter, e.m, k[0], [0.0, 0.5, 100.0], [1.0, 2.0, 3.0]))
    add("scaled", "f", "f", lambda e, k: e.mk(PP.ScaledProfileParameter, e.m, 2.0, k[0]))
    add("interp", "f", "f", lambda e, k: e.mk(PP.InterpolatedParameter, e.m, k[0], [-1e3, 0.5, 1e3], [0.0, 1.0, 5.0]))
    add("quad", "ff", "f", lambda e, k: e.mk(PP.InterpolatedQuadratureParameter, e.m, k[0], [-1e3, 0.5, 1e3], [0.0, 1.0, 5.0],
                                            lower_parameter=k[1]))
    add("poly1", "f", "f", lambda e, k: e.mk(P.Polynomial1DParameter, e.m, [0.5, 1.0, 0.25], parameter=k[0]))
    add("poly2", "f", "f", lambda e, k: e.mk(P.Polynomial2DStorageParameter, e.m, [[0.5, 1.0], [0.25, 1.0]], e.st, k[0]))
    add("thr", "ff", "i", lambda e, k: e.mk(P.ParameterThresholdParameter, e.m, k[0], k[1], values=[0.25, 0.75], predicate="GT"))
    add("thr_st", "f", "i", lambda e, k: e.mk(P.StorageThresholdParameter, e.m, e.st, e.scale(k[0], 50.0), values=[0.25, 0.75]))
    add("thr_node", "f", "i", lambda e, k: e.mk(P.NodeThresholdParameter, e.m, e.dem, e.scale(k[0], 7.0), values=[0.25, 0.75]))
    add("thr_rec", "f", "i", lambda e, k: e.mk(P.RecorderThresholdParameter, e.m, e.rec, e.scale(k[0], 7.0), values=[0.25, 0.75]))
    add("thr_year", "f", "i", lambda e, k: e.mk(P.CurrentYearThresholdParameter, e.m, e.scale(k[0], 4030.0), values=[0.25, 0.75]))
    add("mthr", "ff", "i", lambda e, k: e.mk(P.MultipleThresholdIndexParameter, e.m, e.dem, [e.scale(k[0], 20.0), e.scale(k[1], 9.0)]))
    add("mthrp", "fff", "i", lambda e, k: e.mk(P.MultipleThresholdParameterIndexParameter, e.m, k[0], [k[1], k[2]]))
    add("ccindex", "ff", "i", lambda e, k: e.mk(CC.ControlCurveIndexParameter, e.m, e.st, [k[0], k[1]]))
    add("cc", "fff", "f", lambda e, k: e.mk(CC.ControlCurveParameter, e.m, e.st, [k[0]], parameters=[k[1], k[2]]))
    add("ccv", "ff", "f", lambda e, k: e.mk(CC.ControlCurveParameter, e.m, e.st, [k[0], k[1]], values=[0.25, 0.5, 0.75]))
    add("cci", "ffff", "f", lambda e, k: e.mk(CC.ControlCurveInterpolatedParameter, e.m, e.st, [k[0]], parameters=k[1:]))
    add("cciv", "ff", "f", lambda e, k: e.mk(CC.ControlCurveInterpolatedParameter, e.m, e.st, [k[0], k[1]], values=[.1, .2, .4, .8]))
    add("ccp", "ff", "f", lambda e, k: e.mk(CC.ControlCurvePiecewiseInterpolatedParameter, e.m, e.st, [k[0], k[1]],
                                           [[.1, .2], [.3, .5], [.7, .9]]))
    add("hydro", "ffff", "f", lambda e, k: e.mk(P.HydropowerTargetParameter, e.m, e.pos(k[0]), water_elevation_parameter=e.pos(k[1]),
                                               max_flow=e.pos(k[2]), min_flow=e.pos(k[3]), energy_unit_conversion=1e-3))
    add("wrap", "ff", "f", lambda e, k: e.mk(P.ScenarioWrapperParameter, e.m, e.sc, [k[0], k[1]]))
    # the same relations established by assignment after construction
    add("re_div", "ff", "f", lambda e, k: e.late(e.mk(P.DivisionParameter, e.m, e.d(), e.d()), numerator=k[0], denominator=k[1]))
    add("re_thr", "ff", "i", lambda e, k: e.late(e.mk(P.ParameterThresholdParameter, e.m, k[0], e.d(), values=[.25, .75]), threshold=k[1]))
    add("re_cc", "ff", "i", lambda e, k: e.late(e.mk(CC.ControlCurveIndexParameter, e.m, e.st, [e.d()]), control_curves=[k[0], k[1]]))
    add("re_ccb", "ff", "f", lambda e, k: e.late(e.mk(CC.ControlCurveParameter, e.m, e.st, [e.d(), e.d()], values=[.25, .5, .75]),
                                               control_curves=[k[0], k[1]]))
    add("re_agg", "ff", "f", lambda e, k: e.added(e.mk(P.AggregatedParameter, e.m, [], agg_func="sum"), k[0], k[1]))
    add("re_aggi", "ii", "i", lambda e, k: e.added(e.mk(P.AggregatedIndexParameter, e.m, [], agg_func="sum"), k[0], k[1]))
    add("re_interp", "f", "f", lambda e, k: e.late(e.mk(PP.InterpolatedParameter, e.m, e.d(), [-1e3, 0.5, 1e3], [0.0, 1.0, 5.0]), parameter=k[0]))
    add("re_quad", "ff", "f", lambda e, k: e.late(e.mk(PP.InterpolatedQuadratureParameter, e.m, e.d(), [-1e3, 0.5, 1e3], [0.0, 1.0, 5.0]),
                                                 upper_parameter=k[0], lower_parameter=k[1]))
    add("re_hydro", "ffff", "f", lambda e, k: e.late(e.mk(P.HydropowerTargetParameter, e.m, e.d(), energy_unit_conversion=1e-3,
                                                          water_elevation_parameter=e.d()), target=e.pos(k[0]),
                                                    water_elevation_parameter=e.pos(k[1]), max_flow=e.pos(k[2]), min_flow=e.pos(k[3])))
    return c


# recorders over a parameter (or recorder): phases must follow those of what they record
REC = {
    "npar": ("f", lambda e, k: e.mk(R.NumpyArrayParameterRecorder, e.m, k[0])),
    "daily": ("f", lambda e, k: e.mk(R.NumpyArrayDailyProfileParameterRecorder, e.m, k[0])),
    "nidx": ("i", lambda e, k: e.mk(R.NumpyArrayIndexParameterRecorder, e.m, k[0])),
    "roll": ("f", lambda e, k: e.mk(R.RollingWindowParameterRecorder, e.m, k[0], 2, temporal_agg_func="mean")),
    "tot": ("f", lambda e, k: e.mk(R.TotalParameterRecorder, e.m, k[0])),
    "mean": ("f", lambda e, k: e.mk(R.MeanParameterRecorder, e.m, k[0])),
    "count": ("i", lambda e, k: e.mk(R.TimestepCountIndexParameterRecorder, e.m, k[0], 1)),
    "acount": ("ii", lambda e, k: e.mk(R.AnnualCountIndexThresholdRecorder, e.m, [k[0], k[1]], "acount%d" % k[0].pid, 1)),
    "aicount": ("i", lambda e, k: e.mk(R.AnnualCountIndexParameterRecorder, e.m, k[0], 1)),
    "event": ("i", lambda e, k: e.mk(R.EventRecorder, e.m, k[0])),
    "eventt": ("if", lambda e, k: e.mk(R.EventRecorder, e.m, k[0], tracked_parameter=k[1])),
    "hrec": ("f", lambda e, k: e.mk(R.HydropowerRecorder, e.m, e.dem, water_elevation_parameter=k[0])),
    "hen": ("f", lambda e, k: e.mk(R.TotalHydroEnergyRecorder, e.m, e.dem, water_elevation_parameter=k[0])),
    "norm": ("f", lambda e, k: e.mk(R.NumpyArrayNormalisedStorageRecorder, e.m, e.st, parameter=k[0])),
    "aggrec": ("ff", lambda e, k: e.mk(R.AggregatedRecorder, e.m, [e.mk(R.TotalParameterRecorder, e.m, k[0]),
                                                                  e.mk(R.MeanParameterRecorder, e.m, k[1])], recorder_agg_func="sum")),
}


def build(case, static=None):
    """the expression DAG of a case over leaves that vary (or are frozen at one timestep)"""
    log = Log()
    rng = random.Random(case["seed"])
    e = Env()
    m = e.m = Model(solver="glpk-edge", start="2015-01-01", end=day(NTS))
    m.solver = SolverProxy(m.solver, log)
    e.sc = P_scenario(m, case["nsc"])
    sup = Input(m, "supply", max_flow=10.0)
    e.dem = Output(m, "demand", max_flow=7.0, cost=-10.0)
    e.st = Storage(m, "store", max_volume=50.0, initial_volume=25.0, cost=-1.0)
    e.st2 = Storage(m, "store2", max_volume=70.0, initial_volume=25.0)
    sup.connect(e.dem)
    sup.connect(e.st)
    e.st.connect(e.dem)
    sup.connect(e.st2)
    e.st2.connect(e.dem)
    e.rec = R.NumpyArrayNodeRecorder(m, e.dem)
    deps = []
    e.mk = lambda cls, *a, **k: mk(log, cls, *a, **k)

    def wrap(p, f):      # a function of a parameter as one more component
        a = mk(log, P.AggregatedParameter, m, [p], agg_func=f)
        deps.append((a.pid, p.pid))
        return a
    e.scale = lambda p, s: wrap(p, lambda v: v[0] * s)
    e.pos = lambda p: wrap(p, lambda v: abs(v[0]) + 0.1)
    e.d = lambda: ConstantParameter(m, 0.5)

    def late(o, **kw):
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def added(o, *ps):
        for p in ps:
            o.add(p)
        return o
    e.late, e.added = late, added
    params = []
    nodes = []
    cat = catalogue()
    lateleaf = []
    # some components exist before those which they are told to depend on later
    early = {}
    pos, scale = e.pos, e.scale
    e.late = e.added = e.pos = e.scale = lambda o, *a, **k: o
    for i, nd in enumerate(case["nodes"]):
        if nd[0].startswith("re_") and nd[0] != "re_thr" and (case["seed"] + i) % 2:
            early[i] = cat[nd[0]][2](e, [None] * 4)
    e.late, e.added, e.pos, e.scale = late, added, pos, scale
    for i, nd in enumerate(case["nodes"]):
        if nd[0] in "fi":
            cls = Leaf if nd[0] == "f" else IndexLeaf
            p = cls(m, log, nd[1], static, name="leaf%d" % len(nodes))
            if nd[2]:
                lateleaf.append(p)
        else:
            kids = [nodes[k] for k in nd[1]]
            if i in early:
                e.mk = lambda *a, **k: early[i]
            p = cat[nd[0]][2](e, kids)
            e.mk = lambda cls, *a, **k: mk(log, cls, *a, **k)
            for k in kids:
                deps.append((p.pid, k.pid))
        nodes.append(p)
    for nm, kids in case["recs"]:
        ks = [nodes[k] for k in kids]
        r = REC[nm][1](e, ks)
        for k in ks:
            deps.append((r.pid, k.pid))
    # dependencies created last: the leaf must wait for them, and with it everything above
    for p in lateleaf:
        x = Leaf(m, log, [0.0] * NTS, static)
        p.children.add(x)
        deps.append((p.pid, x.pid))
    recs = [R.NumpyArrayParameterRecorder(m, p, name="rec%d" % i) for i, p in enumerate(nodes)]
    return m, log, deps, nodes, recs


def P_scenario(m, n):
    from pywr.core import Scenario
    return Scenario(m, "sc", size=n)


def closure(deps):
    adj = {}
    for a, b in deps:
        adj.setdefault(a, set()).add(b)

    def reach(a, seen):
        for b in adj.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen
    return [[a, b] for a in adj for b in sorted(reach(a, set()))]


def run_case(case):
    if case["kind"] == "cycle":
        return run_cycle(case)
    m, log, deps, nodes, recs = build(case)
    log.add("call", op="run")
    m.run()
    log.add("return", ok=True)
    dyn = [r.data.copy() for r in recs]
    ids = sorted({e["x"] for e in log.ev if "x" in e})
    vals = sorted({e["x"] for e in log.ev if e["k"] == "value"} |
                  {p.pid for p in nodes if isinstance(p, (Leaf, IndexLeaf))})
    ev = log.ev
    # at every timestep the values are those of the model whose leaves hold that timestep's values throughout
    for t in range(NTS):
        m2, _, _, _, recs2 = build(case, static=t)
        m2.run()
        for j in range(len(recs)):
            ev.append({"k": "values", "node": j, "t": t, "a": [q(x, 10 ** 6) for x in dyn[j][t]],
                       "b": [q(x, 10 ** 6) for x in recs2[j].data[t]]})
    return {"all": ids, "vals": vals, "deps": closure(deps), "n": NTS, "order": True, "life": True, "ev": ev}


def run_cycle(case):
    log = Log()
    m = Model(solver="glpk", start="2015-01-01", end=day(2))
    sup = Input(m, "supply", max_flow=10.0)
    dem = Output(m, "demand", max_flow=7.0, cost=-10.0)
    sup.connect(dem)
    ps = []
    for k, kind in enumerate(case["params"]):
        if kind == "p":
            ps.append(Leaf(m, log, [1.0] * NTS))
        elif kind == "a":
            ps.append(P.AggregatedParameter(m, [ConstantParameter(m, 1.0)], agg_func="sum"))
        else:
            ps.append(ProbeRec(m, log, name="r%d" % k))
    ok = True
    refused = False
    if case["prerun"]:
        m.run()
        log.ev.clear()
    for a, b in case["edges"]:
        if case["params"][a] == "a" and case["params"][b] != "r":
            ps[a].add(ps[b])
        elif a % 2:
            ps[a].children.add(ps[b])
        else:
            ps[b].parents.add(ps[a])
    try:
        if case["op"] == "setup":
            m.setup()
        else:
            if case["prerun"]:
                m.dirty = True
            m.run()
    except ModelStructureError:
        refused = True
    nval = sum(1 for x in log.ev if x["k"] == "value")
    return {"all": [1], "vals": [1], "deps": [], "n": 1, "order": True, "life": True,
            "ev": [{"k": "cyclic", "refused": refused, "values": nval, "edges": [[a + 1, b + 1] for a, b in case["edges"]],
                    "np": len(ps)}]}


def gen_dag(rng, focus=None):
    cat = catalogue()
    nodes, kinds = [], []

    def leaf(k):
        nodes.append([k, table(rng, k), rng.random() < 0.5])
        kinds.append(k)
        return len(nodes) - 1
    for k in "ffi":
        leaf(k)
    names = sorted(cat)
    todo = [focus] if focus else []
    todo += [rng.choice(names) for _ in range(rng.randrange(1, 5))]
    for nm in todo:
        ks, out, _ = cat[nm]
        kids = [None] * len(ks)
        order = list(range(len(ks)))
        rng.shuffle(order)      # what it depends on is created in any order
        div = leaf("f") if nm in ("div", "re_div") and rng.random() < 0.5 else None
        for j in order:
            k = ks[j]
            pool = [i for i in range(len(nodes)) if kinds[i] == k or (k == "f" and False)]
            if k == "i":   # only two valued indices select
                pool = [i for i in pool if nodes[i][0] == "i" or nodes[i][0] in ("thr", "aggi_any", "aggi_all", "aggi_max", "aggi_min", "aggi_product")]
            kids[j] = leaf(k) if rng.random() < 0.5 else rng.choice(pool[-4:])
        if nm in ("interp", "quad", "pwint", "poly1", "poly2", "re_interp", "re_quad"):   # bounded inputs
            kids = [k if nodes[k][0] == "f" else leaf("f") for k in kids]
        if nm in ("div", "re_div"):
            kids[1] = leaf("f") if div is None else div
            if div is not None and rng.random() < 0.5:
                kids[0] = leaf("f")
        if nm in ("agg_custom",):
            pass
        nodes.append([nm, kids])
        kinds.append(out)
    recs = []
    for _ in range(rng.randrange(0, 3)):
        nm = rng.choice(sorted(REC))
        recs.append([nm, [rng.choice([i for i in range(len(nodes)) if kinds[i] == k]) for k in REC[nm][0]]])
    return {"kind": "dag", "seed": rng.randrange(10 ** 9), "nodes": nodes, "recs": recs, "nsc": 2}


def gen_cycle(rng):
    n = rng.randrange(1, 5)
    kinds = [rng.choice("ppar") for _ in range(n)]
    edges = [[a, b] for a in range(n) for b in range(n) if a != b and rng.random() < 0.35]
    if rng.random() < 0.3:
        a = rng.randrange(n)
        edges.append([a, a])
    rng.shuffle(edges)
    return {"kind": "cycle", "params": kinds, "edges": edges, "op": rng.choice(["run", "setup"]), "prerun": rng.random() < 0.3}


def run(chk):
    import c_c02
    chk.model_check("MCLifecycle")
    cat = sorted(catalogue())
    cases = [gen_dag(chk.rng, nm) for nm in cat for _ in range(chk.n(3, 30))]
    for nm in sorted(REC):
        for _ in range(chk.n(2, 20)):
            c = gen_dag(chk.rng)
            kinds = ["f" if x[0] in "fi" and x[0] == "f" else x[0] if x[0] == "i" else catalogue()[x[0]][1] for x in c["nodes"]]
            c["recs"].append([nm, [chk.rng.choice([i for i in range(len(kinds)) if kinds[i] == k]) for k in REC[nm][0]]])
            cases.append(c)
    cases += [gen_cycle(chk.rng) for _ in range(chk.n(120, 1500))]
    traces = chk.run_cases(run_case, cases)
    chk.validate("TraceLifecycle", cases, traces)
    for c in cases[:2]:
        chk.sample(c)
    # random dependency graphs of probes, through all entry points and failures
    cases = []
    for _ in range(chk.n(60, 800)):
        c = c_c02.gen(chk.rng)
        c["np"] = chk.rng.randrange(3, 8)
        perm = list(range(c["np"]))
        chk.rng.shuffle(perm)
        c["deps"] = [[perm[a], perm[b]] for a in range(c["np"]) for b in range(a + 1, c["np"]) if chk.rng.random() < 0.35]
        cases.append(c)

    def ordered(case):
        t = c_c02.run_case(case)
        t["order"], t["deps"] = True, closure([tuple(d) for d in t["deps"]])
        return t
    chk.validate("TraceLifecycle", cases, chk.run_cases(ordered, cases), what="probes")
    chk.extra["composite_components"] = len(cat) + len(REC)
    chk.assumptions += ["the moment a value is computed is observed by overriding value()/index(); components that compute their "
                        "values in bulk are judged by their values and by the order of those above and below them"]
