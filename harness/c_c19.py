"""C19: licences against Licence.tla"""
import datetime, random
import numpy as np
from common import q, SOLVERS, prepare, period
from c_c15 import near
from c_c16 import members_
from pywr.core import Model, Input, Link, Output, Catchment, Scenario
from pywr.nodes import PiecewiseLink, RiverGauge, LossLink
from pywr.parameters import Parameter, AggregatedParameter
from pywr.parameters.licenses import TimestepLicense, DailyLicense, StorageLicense, AnnualLicense, AnnualExponentialLicense, AnnualHyperbolaLicense

U = 100000
KINDS = ["annual", "annual", "annual", "exp", "hyp", "daily", "total"]
NODES = ["input", "link", "output", "piecewise", "loss"]


class Spell(Parameter):
    """the caller's demand, by spell and scenario combination"""
    def __init__(self, model, rows, spell, **kwargs):
        super().__init__(model, **kwargs)
        self.rows, self.spell = rows, spell

    def value(self, ts, si):
        return self.rows[(ts.index // self.spell) % len(self.rows)][si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


Spell.register()


def gen(rng):
    step = rng.choice([1, 1, 2, 3, 5, 7, 10, 30, 30, 45, 100, "W", "M"])
    n0 = {"W": 7, "M": 30}.get(step, step)
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .5:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .7:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None]]) for s in sizes]
    runs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        a = near(rng, rng.choice([1899, 1999, 2000, 2015, 2016, 2020]))
        if rng.random() < .5:
            a = datetime.date(a.year, 12, 1) + datetime.timedelta(rng.randrange(0, 45))
        if runs and rng.random() < .4:
            a = datetime.date.fromisoformat(runs[-1]["start"])
        n = rng.randrange(3, 16) if n0 < 20 or rng.random() < .6 else rng.randrange(10, 30)
        runs.append({"start": a.isoformat(), "end": (a + datetime.timedelta(n0 * n)).isoformat(), "restart": rng.randrange(1, n - 1) if rng.random() < .25 else None})
        if len(runs) > 1 and rng.random() < .35:
            runs[-1] = dict(runs[-2])
    lics = []
    for _ in range(rng.choice([1, 2, 3])):
        kind = rng.choice(KINDS)
        d = {"kind": kind, "amount": rng.choice([10, 50, 200, 365, 366, 1000, 3650]) + rng.choice([0, 0, .5]), "node": rng.choice(NODES), "max": rng.choice([0.5, 2, 8]) + 0.0,
             "k": rng.choice([.5, 1.0, 1.0, 2.0]), "governs": rng.random() < .75 and kind not in ("daily", "total"), "both": rng.random() < .15, "top": rng.choice([1, 5, 20]), "above": rng.random() < .3}
        if kind == "daily":
            d["amount"], d["governs"] = float(rng.choice([0, 1, 3.5])), rng.random() < .8
        if kind == "total":
            d["amount"] = float(rng.choice([50, 200, 1000]))
        lics.append(d)
    return {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "runs": runs, "lics": lics, "solver": rng.choice(SOLVERS), "seed": rng.randrange(10 ** 6),
            "spell": rng.choice([1, 1, 2, 5]), "json": rng.random() < .4}


def demands(case, d, width, rng):
    return [[rng.choice([0.0, d["top"], round(rng.uniform(0, d["top"]), 2), rng.randrange(0, 9) / 8 * d["top"]]) for _ in range(width)] for _ in range(12)]


CLS = {"annual": AnnualLicense, "exp": AnnualExponentialLicense, "hyp": AnnualHyperbolaLicense, "daily": TimestepLicense, "total": StorageLicense}


def build(case, width):
    rng = random.Random(case["seed"])
    rows = [demands(case, d, width, rng) for d in case["lics"]]
    r = case["runs"][0]
    if case["json"] and all(d["kind"] != "daily" for d in case["lics"]):
        doc = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": r["start"], "end": r["end"], "timestep": case["step"]},
               "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])],
               "nodes": [], "edges": [], "parameters": {}}
        if case["combos"] is not None:
            doc["scenario_combinations"] = case["combos"]
        for i, d in enumerate(case["lics"]):
            ns, es = parts(d, i)
            x = dict([("type", {"annual": "annuallicense", "exp": "AnnualExponentialLicense", "hyp": "annualhyperbolalicense", "total": "storagelicense"}[d["kind"]]),
                      ("node", d["x"]), ("amount", d["amount"])])
            if d["kind"] == "exp":
                x.update({"max_value": d["max"]}, **({"k": d["k"]} if d["k"] != 1 else {}))
            elif d["kind"] == "hyp":
                x["value"] = d["max"]
            doc["parameters"]["l%d" % i] = x
            doc["parameters"]["d%d" % i] = {"type": "spell", "rows": rows[i], "spell": case["spell"]}
            lim = "l%d" % i if d["governs"] else None
            if lim and d["both"]:
                doc["parameters"]["m%d" % i] = {"type": "aggregated", "agg_func": "min", "parameters": [lim, "d%d" % i]}
                lim = "m%d" % i
            limited = d["limited"]
            for n in ns:
                if n["name"] == limited and lim:
                    n["max_flow"] = lim
                if n["name"] == "o%d" % i and d["node"] != "output":
                    n["max_flow"] = "d%d" % i
                if n["name"] == "i%d" % i and d["node"] == "output":
                    n["max_flow"] = "d%d" % i
            doc["nodes"] += ns
            doc["edges"] += es
        rng.shuffle(doc["nodes"])
        m = Model.load(doc, solver=case["solver"])
        return m, [m.nodes[d["x"]] for d in case["lics"]], [m.parameters["l%d" % i] for i in range(len(case["lics"]))]
    m = Model(start=r["start"], end=r["end"], timestep=case["step"], solver=case["solver"])
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    xs, ls = [], []
    T = {"input": Input, "link": Link, "output": Output, "piecewiselink": PiecewiseLink, "losslink": LossLink}
    for i, d in enumerate(case["lics"]):
        ns, es = parts(d, i)
        N = {}
        for n in ns:
            n = dict(n)
            N[n["name"]] = T[n.pop("type")](m, **n)
        for a, b in es:
            N[a].connect(N[b])
        x = N[d["x"]]
        D = Spell(m, rows[i], case["spell"], name="d%d" % i)
        kw = {"name": "l%d" % i, "amount": d["amount"]}
        cls = CLS[d["kind"]]
        if d["kind"] == "exp":
            kw["max_value"] = d["max"]
            if d["k"] != 1:
                kw["k"] = d["k"]
        elif d["kind"] == "hyp":
            kw["value"] = d["max"]
        elif d["kind"] == "daily" and i % 2:
            cls = DailyLicense
        L = cls(m, x, **kw)
        lim = AggregatedParameter(m, [L, D], agg_func="min") if d["both"] else L
        if d["governs"]:
            N[d["limited"]].max_flow = lim
        N["i%d" % i if d["node"] == "output" else "o%d" % i].max_flow = D
        xs.append(x)
        ls.append(L)
    return m, xs, ls


def parts(d, i):
    """a chain i -> x -> o with the licensed node in it, which or whose supply the licence limits"""
    nm = {"input": "i%d" % i, "output": "o%d" % i}.get(d["node"], "x%d" % i)
    d["x"] = nm
    ns = [{"name": "i%d" % i, "type": "input"}, {"name": "o%d" % i, "type": "output", "cost": -10.0}]
    es = [["i%d" % i, "o%d" % i]]
    if nm[0] == "x":
        t = {"link": "link", "piecewise": "piecewiselink", "loss": "losslink"}[d["node"]]
        n = {"name": nm, "type": t}
        if t == "piecewiselink":
            n.update({"nsteps": 2, "max_flows": [1.0, None], "costs": [-1.0, 0.0]})
        if t == "losslink":
            n["loss_factor"] = 0.0
        ns.append(n)
        es = [["i%d" % i, nm], [nm, "o%d" % i]]
    d["limited"] = "i%d" % i if nm[0] == "x" and (d["above"] or d["node"] != "link") else nm
    return ns, es


def play(case):
    mem = members_(case)
    width = len(mem)
    m, xs, ls = build(case, width)
    ev = []
    w = range(width)
    for k, r in enumerate(case["runs"]):
        period(m, r["start"], r["end"])
        prepare(m, case.get("always"))
        idx = m.timestepper.datetime_index
        at = r["restart"] if r["restart"] and r["restart"] < len(idx) else 0
        if at:
            m.reset(start=idx[at].start_time)
        else:
            m.reset()
        ev.append({"k": "run"})
        for i in range(at, len(idx)):
            m.step()
            p = idx[i]
            ev.append({"k": "step", "o": p.start_time.toordinal(), "days": (p.end_time.normalize() - p.start_time.normalize()).days + 1,
                       "v": [[q(l.get_all_values()[s]) for s in w] for l in ls], "w": [[q(l.get_all_values()[s], U) for s in w] for l in ls],
                       "f": [[q(x.flow[s], U) for s in w] for x in xs]})
        m.finish()
    return {"ev": ev, "width": width, "lics": [dict(kind=d["kind"], amount=q(d["amount"], U), max=q(d["max"]), k=q(d["k"]), governs=bool(d["governs"])) for d in case["lics"]]}


def run(chk):
    chk.model_check("MCLicence", None if chk.quick else "MCLicenceFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(500, 10000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceLicence", cases, traces, what="licences", chunks=6)
    kinds = {}
    for c in cases:
        for d in c["lics"]:
            k = d["kind"] + " on " + d["node"]
            kinds[k] = kinds.get(k, 0) + 1
    chk.extra["licences"] = dict(sorted(kinds.items()))
    chk.extra["timesteps"] = sum(sum(e["k"] == "step" for e in t.get("ev", [])) for t in traces)
    for c in cases[:3]:
        chk.sample({"licences": c["lics"], "step": c["step"], "runs": c["runs"]})
