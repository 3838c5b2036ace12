"""C31: aquifers against Aquifer.tla"""
import datetime
import numpy as np
from common import q
from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link
from pywr.domains.groundwater import KeatingAquifer
from pywr.parameters import ArrayIndexedParameter, ArrayIndexedScenarioParameter
from pywr.parameters.groundwater import KeatingStreamFlowParameter
from pywr.recorders import Recorder, NumpyArrayLevelRecorder, NumpyArrayStorageRecorder


def gen(rng):
    n = rng.randrange(1, 5)
    lev = [rng.randrange(0, 30)]
    for _ in range(n):
        lev.append(lev[-1] + rng.randrange(1, 16))
    case = {"given": rng.random() < .5, "lev": lev}
    case["sto"] = [rng.randrange(1, 8) for _ in range(n)]
    case["area"] = rng.randrange(1, 4)
    if case["given"]:
        vol = [rng.choice([0, 0, 0, 5])]
        for _ in range(n):
            vol.append(vol[-1] + rng.randrange(1, 200))
    else:
        vol = [0]
        for s, a, b in zip(case["sto"], lev, lev[1:]):
            vol.append(vol[-1] + case["area"] * s * (b - a))
    case["vol"] = vol
    ns = rng.randrange(1, 4)
    nl = rng.randrange(1, 4)
    hs = lambda: [rng.randrange(2 * lev[0] - 4, 2 * lev[-1] + 3) * 500 for _ in range(nl)]
    case["at"] = [hs() for _ in range(ns)]
    case["pat"] = hs()
    case["tr"] = [rng.randrange(1, 6) for _ in range(nl)]
    case["co"] = rng.choice([1, 1, 2, 2, 5, 10])
    case["extra"] = rng.choice([0, 1, 1, 2])
    case["ways"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        way = rng.choice(["volume", "level", "pc"])
        lo, hi = (vol[0], vol[-1]) if way == "volume" else (lev[0], lev[-1]) if way == "level" else (-(-1000 * vol[0] // vol[-1]), 1000)
        f = rng.choice([0, 1, rng.random(), rng.random(), rng.random()])
        ask = lo + (hi - lo) * f
        case["ways"].append([way, round(ask) if way == "pc" else round(ask * 1000)])
    case["way0"] = rng.choice(["init", "attr", "doc"])
    case["T"] = rng.randrange(1, 9)
    case["step"] = rng.choice([1, 1, 2, 7])
    case["nscen"] = rng.choice([0, 0, 2, 3])
    big = max(1, (vol[-1] - vol[0]) // 2)
    case["rech"] = [[rng.choice([0, rng.randrange(0, 20), rng.randrange(0, big + 1), 100000]) / 2 for _ in range(max(1, case["nscen"]))] for _ in range(case["T"])]
    case["abst"] = rng.choice([0, rng.randrange(0, 40), big, 100000]) / 2
    case["solver"] = rng.choice(["glpk", "glpk", "lpsolve", "glpk-edge"])
    return case


class Grab(Recorder):
    def __init__(self, model, aq, ins, outs, ab, probe, ev, d, r, a, **kw):
        super().__init__(model, **kw)
        self.aq, self.ins, self.outs, self.ab, self.probe, self.ev, self.d, self.r, self.a = aq, ins, outs, ab, probe, ev, d, r, a

    def before(self):
        self.v = [q(x) for x in self.aq.volume]

    def after(self):
        i = self.model.timestepper.current.index
        si = list(self.model.scenarios.combinations)
        self.ev.append({"k": "step", "d": self.d, "v": self.v, "r": [q(x) for x in self.r[i]], "a": q(self.a), "level": [q(self.aq.get_level(s)) for s in si],
                        "streams": [[q(o.flow[s.global_id]) for o in self.outs] for s in si], "taken": [q(self.ab.flow[s.global_id]) if self.ab is not None else 0 for s in si],
                        "given": [q(self.ins.flow[s.global_id]) for s in si], "probe": [q(self.probe.flow[s.global_id]) for s in si], "v2": [q(x) for x in self.aq.volume]})


def play(case):
    d0 = datetime.date(2016, 2, 1)
    kw = dict(start=d0.isoformat(), end=(d0 + datetime.timedelta(case["T"] * case["step"] - 1)).isoformat(), timestep=case["step"], solver=case["solver"])
    args = dict(num_streams=len(case["at"]), num_additional_inputs=case["extra"], stream_flow_levels=[[x / 1000 for x in s] for s in case["at"]], transmissivity=list(case["tr"]), coefficient=case["co"] / 100, levels=list(case["lev"]))
    if case["given"]:
        args["volumes"] = list(case["vol"])
    else:
        args["area"] = case["area"] * 100000.0
        args["storativity"] = [x / 100 for x in case["sto"]]

    def setting(way, ask):
        return {"volume": {"initial_volume": ask / 1000}, "pc": {"initial_volume_pc": ask / 1000}, "level": {}}[way]
    if case["way0"] == "doc":
        first = case["ways"][0]
        if first[0] == "level":
            case["ways"][0] = first = ["volume", 1000 * case["vol"][-1]]
        m = Model.load({"metadata": {"title": "a", "minimum_version": "0.1"}, "timestepper": {"start": kw["start"], "end": kw["end"], "timestep": case["step"]}, "solver": {"name": case["solver"]},
                        "nodes": [dict(args, name="aq", type="keatingaquifer", **setting(*first))], "edges": []})
        aq = m.nodes["aq"]
    else:
        m = Model(**kw)
        first = case["ways"][0]
        aq = KeatingAquifer(m, "aq", **args, **(setting(*first) if case["way0"] == "init" else {}))
    if case["nscen"]:
        s = Scenario(m, "s", size=case["nscen"])
        p = ArrayIndexedScenarioParameter(m, s, np.array(case["rech"], dtype=float))
    else:
        p = ArrayIndexedParameter(m, np.array([x[0] for x in case["rech"]], dtype=float))
    rech = Input(m, "rech", max_flow=p, cost=-5)
    rech.connect(aq)
    outs = []
    ns = len(case["at"])
    for i in range(ns):
        o = Output(m, "stream%d" % i)
        aq.connect(o, from_slot=i)
        outs.append(o)
    ab = None
    if case["extra"]:
        ab = Output(m, "abst", max_flow=case["abst"], cost=-10)
        for i in range(case["extra"]):
            aq.connect(ab, from_slot=ns + i)
    probe = Input(m, "spring", max_flow=KeatingStreamFlowParameter(m, aq, [x / 1000 for x in case["pat"]], list(case["tr"])))
    sink = Output(m, "sink", cost=-20)
    probe.connect(sink)
    ev = []
    a = case["abst"] if ab is not None else 0
    Grab(m, aq, rech, outs, ab, probe, ev, case["step"], case["rech"], a, name="grab")
    lr = NumpyArrayLevelRecorder(m, aq, name="lr")
    vr = NumpyArrayStorageRecorder(m, aq, name="vr")
    tol = 2
    for i in range(len(case["vol"]) - 1):
        tol = max(tol, 2 + -(-(case["lev"][i + 1] - case["lev"][i]) // (case["vol"][i + 1] - case["vol"][i])))
    ftol = 3 + sum(2 * t * case["co"] * tol // 100 + 2 for t in case["tr"]) * max(1, len(case["at"]))
    vtol = max(2, 2 + max(-(-(case["vol"][i + 1] - case["vol"][i]) // (case["lev"][i + 1] - case["lev"][i])) for i in range(len(case["vol"]) - 1)))
    desc = {k: case[k] for k in ("lev", "vol", "at", "pat", "tr", "co", "given", "sto", "area")}
    desc.update(tol=tol, ftol=ftol, vtol=vtol, ptol=3 + sum(2 * t * tol + 2 for t in case["tr"]))
    for k, (way, ask) in enumerate(case["ways"]):
        if k or case["way0"] == "attr" or way == "level":
            if way == "level":
                aq.initial_volume_pc = np.nan
                aq.initial_level = ask / 1000
            elif way == "volume":
                aq.initial_volume_pc = np.nan
                aq.initial_volume = ask / 1000
            else:
                aq.initial_volume = np.nan
                aq.initial_volume_pc = ask / 1000
        m.setup() if k == 0 else m.reset()
        ev.append({"k": "begin", "way": way, "ask": ask, "v": q(aq.volume[0]), "min": q(aq.get_min_volume(list(m.scenarios.combinations)[0])), "max": q(aq.get_max_volume(list(m.scenarios.combinations)[0])),
                   "level": q(aq.initial_level) if way != "pc" else 0})
        if len(set(float(x) for x in aq.volume)) != 1:
            ev.append({"k": "uneven"})
        n0 = len(ev)
        try:
            m.run()
        except RuntimeError as ex:
            i = len(ev) - n0
            ev.append({"k": "fail", "d": case["step"], "r": [q(x) for x in case["rech"][i]], "why": str(ex)[:80]})
            break
        if [[q(x) for x in r] for r in lr.data] != [e["level"] for e in ev[n0:]] or [[q(x) for x in r] for r in vr.data] != [e["v2"] for e in ev[n0:]]:
            ev.append({"k": "records"})
    return {"ev": ev, "aq": desc}


def run(chk):
    chk.model_check("MCAquifer", None if chk.quick else "MCAquiferFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(700, 15000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceAquifer", cases, traces, what="aquifers", chunks=6)
    kinds = {}
    for t in traces:
        for e in (t or {}).get("ev", []):
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    chk.extra["events"] = kinds
    for c in cases[:2]:
        chk.sample(c)
