"""C18: control curves and thresholds against Bands.tla"""
import datetime, random
import numpy as np
from common import q, SOLVERS, prepare, period
from c_c15 import near
from c_c16 import members_
from c_c17 import Tab
from pywr.core import Model, Input, Output, Storage, Scenario, VirtualStorage, AggregatedStorage
import pywr.parameters as P
import pywr.parameters.control_curves as CC
from pywr.parameters._thresholds import (StorageThresholdParameter, NodeThresholdParameter, MultipleThresholdIndexParameter, MultipleThresholdParameterIndexParameter,
                                         ParameterThresholdParameter, RecorderThresholdParameter, CurrentYearThresholdParameter, CurrentOrdinalDayThresholdParameter)
from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder, NumpyArrayParameterRecorder

BASE = {"vals": [], "cs": [], "vp": [], "pairs": [], "st": 1, "node": 1, "a": 0, "thr": 0, "t": 0, "rel": "LT", "ratchet": False, "init": 0, "min": 0, "max": 1, "src": ""}
PP = 12800
RELS = ["LT", "GT", "EQ", "LE", "GE"]
SIGN = {"LT": "<", "GT": ">", "EQ": "=", "LE": "<=", "GE": ">="}
THR = ("tst", "tnode", "tpar", "trec", "tyear", "tday")
INDEXED = THR + ("cci", "mnode", "mpar")
STORES = ["st", "vs", "ag"]
MAXES = [16.0, 32.0, 32.0]


def val(rng, case, lo, hi):
    return rng.randrange(int(lo * 8), int(hi * 8) + 1) / 8 if case["exact"] else round(rng.uniform(lo, hi), 3)


def frac(rng, case):
    return rng.randrange(0, 65) / 64 if case["exact"] else round(rng.uniform(0, 1), 2)


def flow_rows(rng, case, width, hi):
    """often constant for a while, so that a storage stands still on a curve"""
    rows, cur = [], [val(rng, case, 0, hi) for _ in range(width)]
    for _ in range(case["n"]):
        if rng.random() < .6:
            cur = [val(rng, case, 0, hi) if rng.random() < .7 else 0.0 for _ in range(width)]
        rows.append(cur)
    return rows


def curve_rows(rng, case, width, k):
    """k descending curves by timestep and scenario"""
    out = [[] for _ in range(k)]
    for _ in range(case["n"]):
        cols = [sorted((frac(rng, case) if rng.random() < .9 else rng.choice([0.0, 1.0, .5]) for _ in range(k)), reverse=True) for _ in range(width)]
        for j in range(k):
            out[j].append([c[j] for c in cols])
    return out


def gen(rng):
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .4:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .6:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None]]) for s in sizes]
    a = near(rng, rng.choice([1999, 2000, 2015, 2016, 2020]))
    n = rng.randrange(4, 16)
    step = rng.choice([1, 1, 1, 2, 5, 30])
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "start": a.isoformat(), "n": n, "exact": rng.random() < .65 and step in (1, 2),
            "seed": rng.randrange(10 ** 6), "solver": rng.choice(SOLVERS), "json": rng.random() < .4, "initial": rng.choice([0, 4, 8, 12, 16]), "ncurve": rng.randrange(1, 4)}
    ds = [dict(BASE, op="tab", k="flow") for _ in range(3)]
    for j in range(case["ncurve"]):
        ds.append(dict(BASE, op="tab", k="curve"))
    curves = list(range(4, 4 + case["ncurve"]))
    consts = []
    for v in sorted((frac(rng, case) for _ in range(rng.randrange(1, 4))), reverse=True):
        ds.append(dict(BASE, op="const", v=v))
        consts.append(len(ds))
    months = []
    ms = [sorted((frac(rng, case) for _ in range(2)), reverse=True) for _ in range(12)]
    for j in range(2):
        ds.append(dict(BASE, op="month", v=[m[j] for m in ms]))
        months.append(len(ds))
    vals = []
    for _ in range(3):
        ds.append(dict(BASE, op="tab", k="val"))
        vals.append(len(ds))
    for _ in range(rng.randrange(3, 9)):
        ds.append(one(rng, case, ds, [curves, consts, months], vals))
    case["runs"] = [{"ds": ds, "restart": rng.randrange(1, n) if rng.random() < .25 else None}]
    for _ in range(rng.choice([0, 1, 1, 2])):
        new = [dict(d) for d in case["runs"][-1]["ds"]]
        for i, d in enumerate(new):
            if rng.random() < .5:
                continue
            e = one(rng, case, new[:i], [curves, consts, months], vals, d["op"]) if d["op"] in ("cc", "cci", "cint") + THR else None
            if d["op"] in ("cc", "cint") and not d["vp"]:
                if rng.random() < .5 and len(e["cs"]) == len(d["cs"]):
                    d["cs"] = e["cs"]
                d["vals"] = [val(rng, case, -5, 9) for _ in d["vals"]]
            elif d["op"] == "cci":
                d["cs"] = e["cs"]
            elif d["op"] in THR:
                d["thr"], d["t"], d["ratchet"] = e["thr"], e["t"], e["ratchet"]
                if d["op"] == "tpar" and d["thr"] == d["a"]:
                    d["thr"] = 0
        case["runs"].append({"ds": new, "restart": rng.randrange(1, n) if rng.random() < .25 else None})
    return case


def one(rng, case, ds, groups, vals, op=None):
    d = dict(BASE)
    d["op"] = op = op or rng.choice(["cc", "cc", "cci", "cci", "cint", "cint", "cpw", "cpw", "tst", "tst", "tnode", "tpar", "trec", "trec", "tyear", "tday", "mnode", "mpar", "wavg"])
    d["st"] = rng.choice([1, 1, 2, 3])
    g = rng.choice(groups)
    k = rng.randrange(1, len(g) + 1)
    cs = sorted(rng.sample(g, k))
    d["node"] = rng.randrange(3) + 1
    if op in ("cc", "cci", "cint", "cpw"):
        if op in ("cc", "cci") and rng.random() < .2:
            rng.shuffle(cs)
        d["cs"] = cs
    if op in ("cc", "cint"):
        n = k + (1 if op == "cc" else 2)
        c = rng.random()
        if c < .35 and n <= len(vals) + 9:
            d["vp"] = [rng.choice(vals) for _ in range(n)]
        elif c < .5 and op == "cc":
            d["vals"], d["default"] = [float(i) for i in range(n)], True
        else:
            d["vals"] = [val(rng, case, -5, 9) for _ in range(n)]
            if rng.random() < .2:
                d["vals"] = [round(v) for v in d["vals"]]        # whole numbers
    elif op == "cpw":
        d["pairs"] = [[val(rng, case, -5, 9), val(rng, case, -5, 9)] for _ in range(k + 1)]
        if rng.random() < .2:
            d["pairs"] = [[round(v) for v in x] for x in d["pairs"]]
        d["min"] = rng.choice([0.0, 0.0, 0.25, 0.125])
        d["max"] = rng.choice([1.0, 1.0, 0.875, 0.75])
    elif op in THR:
        d["rel"] = rng.choice(RELS)
        d["ratchet"] = rng.random() < .45
        d["vals"] = [] if rng.random() < .25 else [val(rng, case, -5, 9) for _ in range(2)]
        if op in ("tyear", "tday"):
            y = int(case["start"][:4])
            d["t"] = float(y + rng.choice([0, 0, 1])) if op == "tyear" else float(datetime.date.fromisoformat(case["start"]).toordinal() + rng.randrange(0, case["n"] * case["step"]))
            if op == "tday":
                d["t"] = d["t"]
        else:
            d["a"] = rng.choice(vals)
            d["src"] = rng.choice(["flow", "vol", "par"]) if op == "trec" else ""
            if op == "trec":
                d["init"] = rng.choice([0, 1])
            if op in ("tst", "trec") and rng.random() < .2:
                d["t"] = rng.choice([0.0, 8.0, 16.0])
            else:
                d["t"] = val(rng, case, 0, 16 if op == "tst" or d["src"] == "vol" else 4)
            if rng.random() < .35:
                o = [x for x in vals if not (op == "tpar" and x == d["a"])]
                d["thr"] = rng.choice(o)
    elif op in ("mnode", "mpar"):
        d["a"] = rng.choice(vals)
        d["cs"] = [x for x in rng.sample(vals, rng.randrange(1, 4)) if x != d["a"] or op == "mnode"] or [x for x in vals if x != d["a"]][:1]
    elif op == "wavg":
        d["cs"] = [rng.choice(groups[1] + groups[2]) for _ in range(rng.randrange(1, 3))]
        d["cs"] = list(dict.fromkeys(d["cs"]))
        d["vals"] = [rng.choice([16.0, 40.0]) for _ in d["cs"]]
    return d


def tables(case, width):
    """the data of the caller's tables"""
    rng = random.Random(case["seed"])
    out = {}
    cr = curve_rows(rng, case, width, case["ncurve"])
    k = 0
    for i, d in enumerate(case["runs"][0]["ds"]):
        if d["op"] == "tab":
            if d["k"] == "flow":
                out[i] = flow_rows(rng, case, width, 3)
            elif d["k"] == "curve":
                out[i] = cr[k]
                k += 1
            else:
                out[i] = flow_rows(rng, case, width, 5)
    return out


def api(m, case, ds, i, ps, nodes, tabs):
    d = ds[i]
    op, name = d["op"], "p%d" % i
    p = lambda j: ps[j - 1]
    st = nodes[STORES[d["st"] - 1]]
    node = nodes[["a", "b", "a2"][d["node"] - 1]]
    # plain numbers are allowed wherever a constant is
    cs = [ds[j - 1]["v"] if ds[j - 1]["op"] == "const" and j % 3 == 0 and op in ("cc", "cci") else p(j) for j in d["cs"]]
    if op == "tab":
        return Tab(m, tabs[i], name=name)
    if op == "const":
        return P.ConstantParameter(m, d["v"], name=name)
    if op == "month":
        return P.MonthlyProfileParameter(m, d["v"], name=name)
    if op == "cc":
        kw = {"parameters": [p(j) for j in d["vp"]]} if d["vp"] else {} if d.get("default") else {"values": d["vals"]}
        return CC.ControlCurveParameter(m, st, cs if len(cs) > 1 or i % 2 else cs[0] if not isinstance(cs[0], float) else cs, name=name, **kw)
    if op == "cci":
        return CC.ControlCurveIndexParameter(m, st, cs, name=name)
    if op == "cint":
        kw = {"parameters": [p(j) for j in d["vp"]]} if d["vp"] else {"values": d["vals"]}
        return CC.ControlCurveInterpolatedParameter(m, st, cs, name=name, **kw)
    if op == "cpw":
        return CC.ControlCurvePiecewiseInterpolatedParameter(m, st, cs, d["pairs"], minimum=d["min"], maximum=d["max"], name=name)
    if op in ("mnode", "mpar"):
        th = [p(j) for j in d["cs"]]
        return MultipleThresholdIndexParameter(m, node, th, name=name) if op == "mnode" else MultipleThresholdParameterIndexParameter(m, p(d["a"]), th, name=name)
    if op == "wavg":
        ss = []
        for k, v in enumerate(d["vals"]):
            s = Storage(m, "w%d_%d" % (i, k), max_volume=v if k == 0 else P.ConstantParameter(m, v), initial_volume=0.0)
            nodes["a2"].connect(s)
            s.connect(nodes["b2"])
            ss.append(s)
        return CC.WeightedAverageProfileParameter(m, ss, [p(j) for j in d["cs"]], name=name)
    kw = {"predicate": SIGN[d["rel"]] if i % 2 else d["rel"].lower() if i % 3 else d["rel"], "ratchet": d["ratchet"], "name": name, "values": d["vals"] or None}
    if d["rel"] == "LT" and i % 4 == 0:
        kw.pop("predicate")
    t = p(d["thr"]) if d["thr"] else d["t"]
    if op == "tst":
        return StorageThresholdParameter(m, st, t, **kw)
    if op == "tnode":
        return NodeThresholdParameter(m, node, t, **kw)
    if op == "tpar":
        return ParameterThresholdParameter(m, p(d["a"]), t, **kw)
    if op == "tyear":
        return CurrentYearThresholdParameter(m, t, **kw)
    if op == "tday":
        return CurrentOrdinalDayThresholdParameter(m, t, **kw)
    r = {"flow": lambda: NumpyArrayNodeRecorder(m, node, name="r%d" % i), "vol": lambda: NumpyArrayStorageRecorder(m, st, name="r%d" % i),
         "par": lambda: NumpyArrayParameterRecorder(m, p(d["a"]), name="r%d" % i)}[d["src"]]()
    return RecorderThresholdParameter(m, r, t, initial_value=d["init"], **kw)


def doc(case, ds, i, tabs, extra):
    d = ds[i]
    op = d["op"]
    p = lambda j: "p%d" % (j - 1)
    st = STORES[d["st"] - 1]
    node = ["a", "b", "a2"][d["node"] - 1]
    cs = [ds[j - 1]["v"] if ds[j - 1]["op"] == "const" and j % 3 == 0 and op in ("cc", "cci") else p(j) for j in d["cs"]]
    if op == "tab":
        return {"type": "tab", "rows": tabs[i]}
    if op == "const":
        return {"type": "constant", "value": d["v"]}
    if op == "month":
        return {"type": "monthlyprofile", "values": d["v"]}
    if op in ("cc", "cint"):
        e = {"type": "controlcurve" if op == "cc" else "controlcurveinterpolated", "storage_node": st}
        e.update({"control_curve": cs[0]} if len(cs) == 1 and i % 2 and isinstance(cs[0], str) else {"control_curves": cs})
        e.update({"parameters": [p(j) for j in d["vp"]]} if d["vp"] else {} if d.get("default") else {"values": d["vals"]})
        return e
    if op == "cci":
        return {"type": "controlcurveindex", "storage_node": st, "control_curves": cs}
    if op == "cpw":
        return {"type": "controlcurvepiecewiseinterpolated", "storage_node": st, "control_curves": cs, "values": d["pairs"], "minimum": d["min"], "maximum": d["max"]}
    if op == "mnode":
        return {"type": "multiplethresholdindex", "node": node, "thresholds": [p(j) for j in d["cs"]]}
    if op == "mpar":
        return {"type": "multiplethresholdparameterindex", "parameter": p(d["a"]), "thresholds": [p(j) for j in d["cs"]]}
    if op == "wavg":
        names = []
        for k, v in enumerate(d["vals"]):
            s = "w%d_%d" % (i, k)
            names.append(s)
            extra["nodes"].append({"name": s, "type": "Storage", "max_volume": v, "initial_volume": 0.0})
            extra["edges"] += [["a2", s], [s, "b2"]]
        return {"type": "weightedaverageprofile", "storages": names, "profiles": [p(j) for j in d["cs"]]}
    e = {"predicate": SIGN[d["rel"]] if i % 2 else d["rel"], "ratchet": d["ratchet"], "threshold": p(d["thr"]) if d["thr"] else d["t"]}
    if d["vals"]:
        e["values"] = d["vals"]
    if op == "tst":
        return dict(e, type="storagethreshold", storage_node=st)
    if op == "tnode":
        return dict(e, type="nodethreshold", node=node)
    if op == "tpar":
        return dict(e, type="parameterthreshold", parameter=p(d["a"]))
    if op == "tyear":
        return dict(e, type="currentyearthreshold")
    if op == "tday":
        return dict(e, type="currentordinaldaythreshold")
    extra["recorders"]["r%d" % i] = {"flow": {"type": "numpyarraynoderecorder", "node": node}, "vol": {"type": "numpyarraystoragerecorder", "node": st},
                                     "par": {"type": "numpyarrayparameterrecorder", "parameter": p(d["a"])}}[d["src"]]
    return dict(e, type="recorderthreshold", recorder="r%d" % i, initial_value=d["init"])


def build(case, width):
    ds = case["runs"][0]["ds"]
    tabs = tables(case, width)
    a = datetime.date.fromisoformat(case["start"])
    end = (a + datetime.timedelta(case["step"] * (case["n"] - 1))).isoformat()
    init = float(case["initial"])
    if case["json"]:
        rng = random.Random(case["seed"])
        extra = {"nodes": [], "edges": [], "recorders": {}}
        pars = [("p%d" % i, doc(case, ds, i, tabs, extra)) for i in range(len(ds))]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p0"}, {"name": "b", "type": "Output", "max_flow": "p1", "cost": -10},
                 {"name": "a2", "type": "Input", "max_flow": "p2"}, {"name": "b2", "type": "Output", "cost": -5},
                 {"name": "st", "type": "Storage", "max_volume": 16.0, "initial_volume": init, "cost": -1},
                 {"name": "st2", "type": "Storage", "max_volume": 16.0, "initial_volume": 8.0, "cost": -2},
                 {"name": "vs", "type": "VirtualStorage", "nodes": ["b"], "factors": [1.0], "max_volume": 32.0, "initial_volume": 32.0},
                 {"name": "ag", "type": "AggregatedStorage", "storage_nodes": ["st", "st2"]}] + extra["nodes"]
        rng.shuffle(nodes)
        doc_ = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": case["start"], "end": end, "timestep": case["step"]},
                "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])],
                "nodes": nodes, "edges": [["a", "st"], ["st", "b"], ["a2", "st2"], ["st2", "b2"], ["a2", "b2"]] + extra["edges"], "parameters": dict(pars), "recorders": extra["recorders"]}
        if case["combos"] is not None:
            doc_["scenario_combinations"] = case["combos"]
        m = Model.load(doc_, solver=case["solver"])
        return m, {k: m.nodes[k] for k in ("a", "b", "a2", "b2", "st", "st2", "vs", "ag")}, [m.parameters["p%d" % i] for i in range(len(ds))]
    m = Model(start=case["start"], end=end, timestep=case["step"], solver=case["solver"])
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    N = {"a": Input(m, "a"), "b": Output(m, "b", cost=-10), "a2": Input(m, "a2"), "b2": Output(m, "b2", cost=-5),
         "st": Storage(m, "st", max_volume=16.0, initial_volume=init, cost=-1), "st2": Storage(m, "st2", max_volume=16.0, initial_volume=8.0, cost=-2)}
    N["vs"] = VirtualStorage(m, "vs", [N["b"]], factors=[1.0], max_volume=32.0, initial_volume=32.0)
    N["ag"] = AggregatedStorage(m, "ag", [N["st"], N["st2"]])
    for x, y in (("a", "st"), ("st", "b"), ("a2", "st2"), ("st2", "b2"), ("a2", "b2")):
        N[x].connect(N[y])
    ps = []
    for i in range(len(ds)):
        ps.append(api(m, case, ds, i, ps, N, tabs))
    N["a"].max_flow, N["b"].max_flow, N["a2"].max_flow = ps[:3]
    return m, N, ps


def apply(ps, old, new):
    for i, (x, y) in enumerate(zip(old, new)):
        if x == y:
            continue
        p, op = ps[i], y["op"]
        if op in ("cc", "cint", "cci") and x["cs"] != y["cs"]:
            p.control_curves = [ps[j - 1] for j in y["cs"]]
        if op in ("cc", "cint") and x["vals"] != y["vals"]:
            p.values = y["vals"]
        if op in THR:
            p.threshold = ps[y["thr"] - 1] if y["thr"] else y["t"]
            p.ratchet = y["ratchet"]


def refused(rng):
    m = Model()
    s = Storage(m, "s", max_volume=1.0)
    k = rng.choice(["cc", "ccp", "cint", "cpw", "cpw2", "none"])
    try:
        if k == "cc":
            CC.ControlCurveParameter(m, s, [.5, .3], values=[1.0, 2.0])
        elif k == "ccp":
            CC.ControlCurveParameter(m, s, [.5], parameters=[P.ConstantParameter(m, 1.0)])
        elif k == "cint":
            CC.ControlCurveInterpolatedParameter(m, s, [.5, .3], [1.0, 2.0, 3.0])
        elif k == "cpw":
            CC.ControlCurvePiecewiseInterpolatedParameter(m, s, [.5, .3], [[1.0, 2.0], [2.0, 3.0]])
        elif k == "cpw2":
            CC.ControlCurvePiecewiseInterpolatedParameter(m, s, [.5], [[1.0, 2.0, 3.0], [2.0, 3.0, 4.0]])
        else:
            CC.ControlCurveInterpolatedParameter(m, s, [.5])
    except ValueError:
        return True
    return False


def public(d):
    e = {k: d[k] for k in BASE}
    e["op"] = d["op"]
    for k in ("vals",):
        e[k] = [q(x) for x in d[k]]
    e["pairs"] = [[q(x) for x in r] for r in d["pairs"]]
    e["t"] = q(d["t"])
    e["min"], e["max"] = q(d["min"], PP), q(d["max"], PP)
    return e


def play(case):
    mem = members_(case)
    width = len(mem)
    m, N, ps = build(case, width)
    flows = [N["a"], N["b"], N["a2"]]
    stores = [N[k] for k in STORES]
    o0 = datetime.date.fromisoformat(case["start"]).toordinal()
    ev = [{"k": "refuse", "refused": refused(random.Random(case["seed"]))}]
    last = case["runs"][0]["ds"]
    for k, r in enumerate(case["runs"]):
        if k:
            apply(ps, last, r["ds"])
            last = r["ds"]
        ev.append({"k": "set", "ds": [public(d) for d in last]})
        prepare(m, case.get("always"))
        at = r["restart"] or 0
        if at:
            m.reset(start=m.timestepper.datetime_index[at].start_time)
        else:
            m.reset()
        prev = np.zeros((3, width))
        for i in range(at, case["n"]):
            pc = np.array([s.current_pc for s in stores])
            vol = np.array([s.volume for s in stores])
            d = datetime.date.fromordinal(o0 + i * case["step"])
            e = {"k": "step", "run": k + 1, "i": i, "o": d.toordinal(), "year": d.year, "first": i == at}
            m.step()
            w = range(width)
            e["pc"] = [[q(x, PP) for x in pc[:, s]] for s in w]
            e["ex"] = [bool(np.all(pc[:, s] * PP == np.round(pc[:, s] * PP))) for s in w]
            e["vol"] = [[q(x) for x in vol[:, s]] for s in w]
            e["exv"] = [bool(np.all(vol[:, s] * 8 == np.round(vol[:, s] * 8))) and case["exact"] for s in w]
            e["prev"] = [[q(x) for x in prev[:, s]] for s in w]
            e["exf"] = [bool(np.all(prev[:, s] * 8 == np.round(prev[:, s] * 8))) and case["exact"] for s in w]
            e["v"] = [[q(x) for x in p.get_all_values()] for p in ps]
            e["p"] = [[q(x, PP) if last[j]["op"] in ("tab", "const", "month") else 0 for x in p.get_all_values()] for j, p in enumerate(ps)]
            e["ix"] = [list(map(int, p.get_all_indices())) if last[j]["op"] in INDEXED else [] for j, p in enumerate(ps)]
            ev.append(e)
            prev = np.array([f.flow for f in flows])
        m.finish()
    return {"ev": ev, "ds": [public(d) for d in case["runs"][0]["ds"]], "exact": case["exact"], "members": [[i + 1 for i in x] for x in mem]}


def run(chk):
    chk.model_check("MCBands", None if chk.quick else "MCBandsFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(500, 10000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceBands", cases, traces, what="bands", chunks=6)
    ops, ties = {}, 0
    for c in cases:
        for d in c["runs"][0]["ds"]:
            ops[d["op"]] = ops.get(d["op"], 0) + 1
    for t in traces:
        for e in t.get("ev", []):
            if e["k"] == "set":
                ds = e["ds"]
            if e["k"] == "step":
                for d in ds:
                    if d["op"] in ("cc", "cci", "cint", "cpw"):
                        for s in range(len(e["pc"])):
                            ties += e["ex"][s] and any(e["p"][j - 1][s] == e["pc"][s][d["st"] - 1] for j in d["cs"])
    chk.extra["operations"] = dict(sorted(ops.items()))
    chk.extra["exactly_on_a_curve"] = ties
    for c in cases[:3]:
        chk.sample({"parameters": [d["op"] for d in c["runs"][0]["ds"]], "sizes": c["sizes"], "json": c["json"], "runs": len(c["runs"])})
