"""C24: several random worlds run together by MultiModel with links of every kind between them; each model is also run alone on
what it read.  Small linked models are also loaded from documents."""
import copy, datetime, json, os, random
import numpy as np
import pandas as pd
from common import q, SOLVERS
import worlds as W
from c_c04 import qrow, final
from pywr.model import Model, MultiModel
from pywr.core import Input, Output, Link, Storage, Scenario, Catchment
from pywr.nodes import ShadowNode, ShadowStorage
import pywr.parameters as P
from pywr.parameters import Parameter, IndexParameter, StorageParameter
from pywr.parameters.multi_model_parameters import (OtherModelParameterValueParameter, OtherModelIndexParameterValueIndexParameter,
                                                    OtherModelNodeFlowParameter, OtherModelNodeStorageParameter)
from pywr.recorders import Recorder

KINDS = ["pvalue", "pvalue", "index", "nflow", "nflow", "nvol", "nvol", "snode", "sstore", "sstore_pc", "sstore_flow", "sparam", "sparam_pc"]
VOL = ("nvol", "sstore", "sparam")
PC = ("sstore_pc", "sparam_pc")


class Shown(Parameter):
    """what a shadow node shows"""
    def __init__(self, model, node, attr, **kw):
        super().__init__(model, **kw)
        self.node, self.attr = node, attr

    def value(self, ts, si):
        return getattr(self.node, self.attr)[si.global_id]


class Replay(Parameter):
    def __init__(self, model, rows, **kw):
        super().__init__(model, **kw)
        self.rows = rows

    def value(self, ts, si):
        return self.rows[ts.index][si.global_id]


class Turn(Recorder):
    """the turn of a model, noticed at its end"""
    def __init__(self, model, sys, i):
        self.sys, self.i = sys, i
        super().__init__(model, name="zzz turn")

    def after(self):
        self.sys.turn(self.i, self.model.timestep)


class System:
    """models joined by links, each [from, to, kind, name of the quantity]"""
    def __init__(self, worlds, links):
        self.w, self.links, self.ev, self.readers = worlds, links, [], [None] * len(links)
        self.readings = [[] for _ in links]

    def source(self, k):
        a, b, kind, name = self.links[k]
        m = self.w[a].m
        if kind in ("pvalue", "index"):
            p = m.parameters[name]
            return np.array(p.get_all_values() if kind == "pvalue" else p.get_all_indices(), dtype=float)
        n = m.nodes[name]
        return np.array(n.volume if kind in VOL else n.current_pc if kind in PC else n.flow, dtype=float)

    def reading(self, k):
        r = self.readers[k]
        return np.array(r.get_all_indices() if self.links[k][2] == "index" else r.get_all_values(), dtype=float)

    def turn(self, i, ts):
        d = {"k": "turn", "m": i + 1, "date": ts.datetime.strftime("%Y-%m-%d"), "days": q(ts.days)}
        d["ins"], d["outs"] = [], []
        for k, (a, b, kind, name) in enumerate(self.links):
            r = self.reading(k) if b == i else None
            if r is not None:
                self.readings[k].append(r)
            d["ins"].append([] if r is None else [q(x) for x in r])
            d["outs"].append([q(x) for x in self.source(k)] if a == i else [])
        self.ev.append(d)


def consumer(w, k, rng):
    """a node whose limit will depend on a link"""
    c = [n for n in w.flownodes if type(n) in (Input, Output) and n.name not in w.used and not n.name.startswith("spill")]
    if not c:
        return None
    n = rng.choice(c)
    w.used.add(n.name)
    return n


def attach(w, k, link, rng, replay=None):
    """the reading end of a link in world w, or a replay of what was read"""
    a, b, kind, name = link
    m, other = w.m, "m%d" % a
    rd = "rd%d" % k
    r2 = random.Random(rng)
    if replay is not None:
        p = Replay(m, replay, name=rd)
    elif kind == "pvalue":
        p = OtherModelParameterValueParameter(m, other, name, name=rd)
    elif kind == "index":
        p = OtherModelIndexParameterValueIndexParameter(m, other, name, name=rd)
    elif kind == "nflow":
        p = OtherModelNodeFlowParameter(m, other, name, name=rd)
    elif kind == "nvol":
        p = OtherModelNodeStorageParameter(m, other, name, name=rd)
    else:
        w.nodes()      # (shadows are not part of the world)
        if kind in ("snode",):
            s = ShadowNode(m, other, name, name="shadow%d" % k)
        else:
            s = ShadowStorage(m, other, name, name="shadow%d" % k)
        if kind.startswith("sparam"):
            p = StorageParameter(m, s, use_proportional_volume=kind == "sparam_pc", name=rd)
        else:
            p = Shown(m, s, {"snode": "flow", "sstore": "volume", "sstore_pc": "current_pc", "sstore_flow": "flow"}[kind], name=rd)
    if kind == "index" and replay is None:
        w.params.append(P.IndexedArrayParameter(m, p, [P.ConstantParameter(m, float(i), name="%si%d" % (rd, i)) for i in range(12)], name=rd + "v"))
    elif kind == "index":
        w.params.append(P.AggregatedParameter(m, [p], agg_func="sum", name=rd + "v"))
    else:
        w.params.append(p)
    n = consumer(w, k, r2)
    if n is not None:
        v = w.params[-1]
        scale = 10.0 if kind in PC else 1.0
        f = P.AggregatedParameter(m, [v, P.ConstantParameter(m, scale, name=rd + "s")], agg_func="product", name=rd + "f")
        g = P.AggregatedParameter(m, [f, P.ConstantParameter(m, 0.5, name=rd + "c")], agg_func=r2.choice(["max", "sum"]), name=rd + "g")
        h = P.AggregatedParameter(m, [g, P.ConstantParameter(m, 0.0, name=rd + "z")], agg_func="max", name=rd + "h")
        n.max_flow = h
        w.knobs.pop(n.name + ".max_flow", None)
        w.params.append(h)
    return p


def build(case, cfg):
    ws = []
    for cs in case["worlds"]:
        w = W.build(cs, cfg)
        w.used = set()
        ws.append(w)
    s = System(ws, case["links"])
    for k, l in enumerate(case["links"]):
        s.readers[k] = attach(ws[l[1]], k, l, case["seed"] + k)
    mm = MultiModel()
    for i, w in enumerate(ws):
        Turn(w.m, s, i)
        mm.add_model("m%d" % i, w.m)
    s.mm = mm
    return s


def alone(case, cfg, i, readings):
    w = W.build(case["worlds"][i], cfg)
    w.used = set()
    for k, l in enumerate(case["links"]):
        if l[1] == i:
            attach(w, k, l, case["seed"] + k, readings[k])
    w.m.run()
    return w


def timeline(w):
    """the timesteps of a model, as Timestepper (C01) gives them"""
    t = copy.copy(w.m.timestepper)
    t.setup()
    return [[x.datetime.strftime("%Y-%m-%d"), q(x.days)] for x in t]


def initial(s, refs):
    """the state each model starts with: flows are zero, storages hold their initial volume, parameters have not been evaluated"""
    out = []
    for a, b, kind, name in s.links:
        m = refs[a].m
        n = len(m.scenarios.combinations)
        if kind in VOL or kind in PC:
            x = m.nodes[name]
            v = np.array(x.volume if kind in VOL else x.current_pc, dtype=float)
        elif kind == "pvalue" and m.parameters[name].is_constant:
            v = [m.parameters[name].get_constant_value()] * n
        else:
            v = [0.0] * n
        out.append([q(x) for x in v])
    return out


def run_case(case):
    cfgs = case["cfgs"]
    s = build(case, cfgs[0])
    out = []
    cur = 0
    for o in case["ops"]:
        if o[0] == "change":
            cur = o[1]
            for w in s.w:
                W.reconfigure(w, dict(cfgs[cur], knobs={k: v for k, v in cfgs[cur]["knobs"].items() if k in w.knobs}))
            continue
        if o[0] == "setup":
            s.mm.setup()
            continue
        if o[0] == "reset":
            if not s.mm.dirty:
                s.mm.reset()
            continue
        if o[0] == "skew":      # one model is given another period or other combinations
            w = s.w[o[1]]
            old = (w.m.timestepper.start, w.m.timestepper.end, w.m.timestepper.delta)
            st, en, de = old
            if o[2] == "end":
                en = en + pd.Timedelta(days=o[3] * int(de))
            elif o[2] == "start":
                st, en = st + pd.Timedelta(days=o[3] * int(de)), en
            elif o[2] == "delta":
                de = int(de) + abs(o[3])
            elif o[2] == "scenario" and s.w[o[1]].scens:
                w.m.scenarios.user_combinations = [[0] * len(w.scens)] * (1 + len(W.combos(case["worlds"][o[1]], cfgs[cur])))
                w.m.dirty = True
            w.m.timestepper.start, w.m.timestepper.end, w.m.timestepper.delta = st, en, de
        s.ev, s.readings = [], [[] for _ in s.links]
        for w in s.w:
            w.obs.rows = []
        refs = []
        for i, cs in enumerate(case["worlds"]):
            r = W.build(cs, cfgs[cur])
            r.m.setup()
            refs.append(r)
        times = [timeline(w) for w in s.w]
        if not all(times):
            raise RuntimeError("case without timesteps")
        tr = {"n": len(s.w), "links": [{"from": l[0] + 1, "to": l[1] + 1, "kind": l[2]} for l in s.links], "times": times,
              "scens": [[[int(x) for x in c.indices] for c in w.m.scenarios.get_combinations()] for w in s.w]}
        try:
            s.mm.run()
            ok = True
        except (RuntimeError, ValueError) as e:
            ok = False
            msg = str(e)
            if not any(x in msg for x in ("synchronised", "inconsistent", "imestep")):
                raise
        if ok:
            ev = [{"k": "start", "init": initial(s, refs)}] + s.ev + [{"k": "end"}]
            if o[0] == "run":
                for i, w in enumerate(s.w):
                    b = alone(case, cfgs[cur], i, s.readings)
                    ev.append({"k": "alone", "m": i + 1, "labels": W.labels(w), "a": [qrow(x) for x in w.obs.rows], "b": [qrow(x) for x in b.obs.rows],
                               "fa": final(w), "fb": final(b)})
        else:
            ev = [{"k": "refused"}]
        if o[0] == "skew":
            w.m.timestepper.start, w.m.timestepper.end, w.m.timestepper.delta = old
            if o[2] == "scenario" and s.w[o[1]].scens:
                w = s.w[o[1]]
                W.set_scenarios(w, cfgs[cur])
                w.m.dirty = True
        tr["ev"] = ev
        out.append(tr)
    return {"parts": out}


def names(w, kind):
    if kind == "pvalue":
        return [p.name for p in w.params]
    if kind == "index":
        return [p.name for p in w.indices]
    if kind in VOL or kind in PC or kind == "sstore_flow":
        return [s.name for s in w.stores]
    return [n.name for n in w.flownodes]


def gen(rng):
    n = rng.choice([2, 2, 3, 3, 4])
    base, cfg = W.gen_case(rng, nfeat=1)
    ws = []
    for i in range(n):
        cs, _ = W.gen_case(rng, nfeat=rng.choice([1, 1, 2]))
        for k in ("sizes", "step", "dfstart", "dfend"):
            cs[k] = base[k]
        cs["recs"] = rng.random() < 0.5
        ws.append(cs)
    built = [W.build(cs, cfg) for cs in ws]
    links = []
    for _ in range(rng.randrange(1, 2 * n + 1)):
        a, b = rng.sample(range(n), 2)
        kind = rng.choice(KINDS)
        c = names(built[a], kind)
        if c:
            links.append([a, b, kind, rng.choice(c)])
    cfgs = [cfg]
    c = copy.deepcopy(cfg)
    for w in built:
        for k in sorted(w.knobs):
            v = w.knobs[k][1]()
            cfg["knobs"][k] = v
            c["knobs"][k] = w.knobs[k][1]() if rng.random() < .5 else v
    if rng.random() < 0.5:
        s = datetime.date.fromisoformat(cfg["start"]) + datetime.timedelta(days=rng.choice([0, 1, 15]))
        m = rng.randrange(2, 8)
        c["start"], c["end"] = s.isoformat(), (s + datetime.timedelta(days=m * base["step"] - 1)).isoformat()
    cfgs.append(c)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        r = rng.random()
        if r < .2:
            ops.append(["setup"])
        elif r < .4:
            ops.append(["reset"])
        elif r < .6:
            ops.append(["change", rng.randrange(2)])
        elif r < .75:
            kind = rng.choice(["end", "end", "start", "delta", "scenario"])
            ops.append(["skew", rng.randrange(n), kind, {"end": rng.choice([-1, 1, 2]), "start": rng.choice([-1, 1]), "delta": 1, "scenario": 0}[kind]])
        ops.append(["run"])
    return {"seed": rng.randrange(10 ** 9), "worlds": ws, "links": links, "cfgs": cfgs, "ops": ops}


# ------------------------------------------------------------------------------------------------ documents
def doc_case(case):
    """linked models loaded from documents: in files or in one document"""
    base = "c24_%d" % case["seed"]
    os.makedirs(base + "/sub", exist_ok=True)
    models = []
    for i, d in enumerate(case["docs"]):
        e = {"name": "m%d" % i}
        if case["solvers"][i]:
            e["solver"] = case["solvers"][i]
        if case["file"][i]:
            fn = "sub/m%d.json" % i
            json.dump(d, open(os.path.join(base, fn), "w"))
            e["filename"] = fn
        else:
            e["data"] = d
        models.append(e)
    doc = {"metadata": {"title": "t", "minimum_version": "1.0"}, "timestepper": case["timestepper"], "models": models}
    if case["how"] == "dict":
        mm = MultiModel.load(doc, path=base, **({"solver": case["solver"]} if case["solver"] else {}))
    else:
        fn = os.path.join(base, "all.json")
        json.dump(doc, open(fn, "w"))
        kw = {"solver": case["solver"]} if case["solver"] else {}
        mm = MultiModel.load(fn, **kw) if case["how"] == "file" else MultiModel.load(open(fn), path=base, **kw)

    class V:
        pass
    ws = []
    for i in range(len(models)):
        v = V()
        v.m = mm.models["m%d" % i]
        ws.append(v)
    s = System(ws, case["links"])
    for k, l in enumerate(case["links"]):
        s.readers[k] = ws[l[1]].m.parameters["rd%d" % k]
    for i, w in enumerate(ws):
        Turn(w.m, s, i)
    ref = Model(start=case["timestepper"]["start"], end=case["timestepper"]["end"], timestep=case["timestepper"]["timestep"])
    V.m = ref
    tl = timeline(V)
    init = []
    for a, b, kind, name in case["links"]:
        init.append([q(case["init"][a][name] if kind in VOL else 0.0)] * case["nscen"])
    parts = []
    for _ in range(case["runs"]):
        s.ev, s.readings = [], [[] for _ in s.links]
        mm.run()
        parts.append({"n": len(ws), "links": [{"from": l[0] + 1, "to": l[1] + 1, "kind": l[2]} for l in s.links], "times": [tl] * len(ws),
                      "scens": [[]] * len(ws), "ev": [{"k": "start", "init": init}] + s.ev + [{"k": "end"}]
                      + [{"k": "option", "got": w.m.solver.name, "want": case["solvers"][i] or case["solver"] or "glpk"} for i, w in enumerate(ws)]})
    return {"parts": parts}


def gen_doc(rng):
    n = rng.choice([2, 2, 3])
    ts = {"start": rng.choice(["2015-01-01", "2016-02-26"]), "timestep": rng.choice([1, 3, 7, "W", "M"])}
    ts["end"] = {"2015-01-01": "2015-03-20", "2016-02-26": "2016-05-01"}[ts["start"]]
    nscen = rng.choice([1, 1, 3])
    docs, inits, links = [], [], []
    quantities = [[("pvalue", "demand"), ("nflow", "d"), ("nflow", "s"), ("nvol", "r"), ("sstore", "r"), ("snode", "d")] for _ in range(n)]
    for i in range(n):
        vol = float(rng.randrange(20, 60))
        inits.append({"r": vol})
        d = {"metadata": {"title": "m%d" % i, "minimum_version": "1.0"},
             "timestepper": {"start": "2001-01-01", "end": "2001-01-10", "timestep": rng.choice([1, 5])},
             "nodes": [{"name": "s", "type": "input", "max_flow": "supply"}, {"name": "r", "type": "storage", "max_volume": 100.0, "initial_volume": vol},
                       {"name": "d", "type": "output", "max_flow": "demand", "cost": -10.0}],
             "edges": [["s", "r"], ["r", "d"]],
             "parameters": {"supply": {"type": "monthlyprofile", "values": [rng.randrange(1, 6) for _ in range(12)]},
                            "demand": {"type": "monthlyprofile", "values": [rng.randrange(1, 6) for _ in range(12)]}}}
        if nscen > 1:
            d["scenarios"] = [{"name": "a", "size": nscen}]
            d["parameters"]["supply"] = {"type": "constantscenario", "scenario": "a", "values": [rng.randrange(1, 6) for _ in range(nscen)]}
            d["parameters"]["supply"] = {"type": "scenariomonthlyprofile", "scenario": "a",
                                         "values": [[rng.randrange(1, 6) for _ in range(12)] for _ in range(nscen)]}
        docs.append(d)
    for k in range(rng.randrange(1, 4)):
        a, b = rng.sample(range(n), 2)
        kind, name = rng.choice(quantities[a])
        o = "m%d" % a
        P_ = docs[b]["parameters"]
        if kind == "pvalue":
            P_["rd%d" % k] = {"type": "othermodelparametervalue", "other_model": o, "parameter": name}
        elif kind == "nflow":
            P_["rd%d" % k] = {"type": "othermodelnodeflow", "other_model": o, "node": name}
        elif kind == "nvol":
            P_["rd%d" % k] = {"type": "othermodelnodestorage", "other_model": o, "node": name}
        elif kind == "sstore":
            docs[b]["nodes"].append({"type": "shadowstorage", "name": "sh%d" % k, "other_model": o, "node": name})
            P_["rd%d" % k] = {"type": "storage", "storage_node": "sh%d" % k}
        else:
            continue
        links.append([a, b, kind, name])
        if k != len(links) - 1:
            P_["rd%d" % (len(links) - 1)] = P_.pop("rd%d" % k)
        # the reading is used, or read by nothing
        if rng.random() < .7:
            P_["use%d" % k] = {"type": "aggregated", "agg_func": "max", "parameters": ["rd%d" % (len(links) - 1), 0.5]}
            docs[b]["nodes"][2 if rng.random() < .5 else 0]["max_flow"] = "use%d" % k
    sol = lambda p: rng.choice(SOLVERS[:1] + SOLVERS[2:]) if rng.random() < p else None
    return {"seed": rng.randrange(10 ** 9), "docs": docs, "links": links, "timestepper": ts, "init": inits, "nscen": nscen, "runs": rng.choice([1, 2]),
            "file": [rng.random() < .5 for _ in range(n)], "solvers": [sol(.3) for _ in range(n)], "solver": sol(.5),
            "how": rng.choice(["dict", "file", "object"])}


def flat(cases, traces):
    cs, ts = [], []
    for c, t in zip(cases, traces):
        if t and "parts" in t:
            for p in t["parts"]:
                cs.append(c)
                ts.append(p)
        else:
            cs.append(c)
            ts.append(t)
    return cs, ts


def run(chk):
    chk.model_check("MCLinked", "MCLinked" if chk.tier == "quick" else "MCLinkedFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(110, 2200))]
    traces = chk.run_cases(run_case, cases)
    cs, ts = flat(cases, traces)
    chk.validate("TraceLinked", cs, ts, chunks=6)
    chk.extra["runs_refused"] = sum(any(e["k"] == "refused" for e in t.get("ev", [])) for t in ts)
    for c in cases[:3]:
        chk.sample({"links": c["links"], "ops": c["ops"], "features": [[W.FEATURES[f].__name__ for f in w["features"]] for w in c["worlds"]]})
    docs = [gen_doc(rng) for _ in range(chk.n(60, 800))]
    cs, ts = flat(docs, chk.run_cases(doc_case, docs))
    chk.validate("TraceLinked", cs, ts, what="documents")
    chk.sample(docs[0])
