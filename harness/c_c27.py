"""C27: problems with variables, objectives and constraints, evaluated by users of the wrappers for platypus and pygmo and directly, and searches by
bisection; compared with Optimise.tla and with models which have the values from the start."""
import copy, json, math, os, uuid
import numpy as np
import pandas as pd
from common import q, SOLVERS
import platypus
try:
    import pygmo
except ImportError:
    pygmo = None
import pywr.optimisation as opt
from pywr.optimisation.platypus import PlatypusWrapper, PywrRandomGenerator
from pywr.optimisation.pygmo import PygmoWrapper
from pywr.model import Model
from pywr.utils.bisect import BisectionSearchModel
from pywr.recorders import Recorder
from pywr.parameters import ControlCurveParameter, ConstantParameter, MonthlyProfileParameter, RbfProfileParameter, AnnualHarmonicSeriesParameter
from pywr.parameters._parameters import load_parameter

NONE = q(float("nan"))


class Affine(Recorder):
    """values known exactly"""

    def __init__(self, model, base, of=None, coef=0.0, **kwargs):
        super().__init__(model, **kwargs)
        self.base, self.of, self.coef = base, of, coef

    def values(self):
        x = self.model.parameters[self.of].get_double_variables()[0] if self.of else 0.0
        return np.array(self.base, dtype=float) + self.coef * x

    @classmethod
    def load(cls, model, data):
        data["base"] = [float("nan") if x is None else x for x in data["base"]]
        return cls(model, **data)


Affine.register()


class Spy(Recorder):
    def __init__(self, m, case, names):
        super().__init__(m, name="the spy")
        self.case, self.names, self.rows, self.all, self.tried = case, names, [], [], []

    def reset(self):
        self.rows, self.all = [], []

    def after(self):
        m = self.model
        ps = [list(m.parameters[n].get_all_values()) for n in self.names]
        c = list(m.scenarios.combinations)
        band = [q(m.parameters["band"].get_value(s)) for s in c] if self.case.get("params") else []
        f, every = [], []
        for j, n in enumerate(self.names):
            f.append([q(v) for v in m.nodes["in " + n].flow] if ("in " + n) in m.nodes else [])
        for n in sorted(x.name for x in m.nodes.values()):
            every += [q(v) for v in m.nodes[n].flow]
        self.rows.append({"month": m.timestepper.current.month, "p": [[q(v) for v in p] for p in ps], "band": band, "f": f})
        self.all.append([q(v) for p in ps for v in p] + every)

    def values(self):
        return np.zeros(len(self.model.scenarios.combinations))


# ------------------------------------------------------------------------------------------------ problems
def half(r, lo, hi):
    return r.randint(int(2 * lo), int(2 * hi)) / 2


def gen_param(r, name, kinds):
    kind = r.choice(kinds)
    p = {"name": name, "kind": kind, "variable": r.random() < .7, "limits": r.random() < .6, "a": [], "at": []}
    j = p["json"] = {}

    def bounds(n, lo=0, hi=4, both=None):
        L, H = [half(r, lo, lo + 1) for _ in range(n)], [half(r, hi - 1, hi + 1) for _ in range(n)]
        if both or (both is None and r.random() < .5):
            L, H = [L[0]] * n, [H[0]] * n
            return L, H, L[0], H[0]
        return L, H, L, H

    if kind == "constant":
        L, H, l, h = bounds(1, both=True)
        x = [half(r, 0, 4)]
        j.update(type="constant", value=x[0], lower_bounds=l, upper_bounds=h)
        if r.random() < .2:
            del j["lower_bounds"], j["upper_bounds"]
            L, H = [0.0], [math.inf]
        off, sc = 0.0, 1.0
        if r.random() < .4:
            off, sc = half(r, -1, 1), half(r, -1, 2)
            j.update(offset=off, scale=sc)
        p["a"] = [off, sc]
    elif kind == "monthly":
        L, H, l, h = bounds(12)
        x = [half(r, 0, 4) for _ in range(12)]
        j.update(type="monthlyprofile", values=x, lower_bounds=l, upper_bounds=h)
        d = r.choice([None, None, "first", "last"])
        if d:
            j["interp_day"] = d
            p["kind"] = "monthlyinterp"
    elif kind == "rbf":
        n = r.choice([3, 4, 5])
        days = [1] + sorted(r.sample(range(2, 13), n - 1))
        days = [1] + [d * 30 for d in days[1:]]
        L, H, l, h = bounds(n)
        x = [half(r, 0, 4) for _ in range(n)]
        j.update(type="rbfprofile", days_of_year=days, values=x, lower_bounds=l, upper_bounds=h)
        how = r.choice(["", "range", "range", "bounds"])
        if how == "range":
            w = r.choice([3, 10])
            j["variable_days_of_year_range"] = w
            p["ilo"], p["ihi"] = [d - w for d in days[1:]], [min(d + w, 365) for d in days[1:]]
        elif how == "bounds":
            p["ilo"], p["ihi"] = [d - 5 for d in days[1:]], [min(d + 7, 365) for d in days[1:]]
            j["variable_days_lower_bounds"], j["variable_days_upper_bounds"] = p["ilo"], p["ihi"]
        if r.random() < .5:
            j.update(min_value=0.0, max_value=5.0)
        p["ints"] = days[1:]
    elif kind == "harmonic":
        n = r.choice([1, 2, 3])
        x = [half(r, 1, 3)] + [half(r, 0, 1) for _ in range(n)] + [half(r, 0, 6) for _ in range(n)]
        j.update(type="annualharmonicseries", mean=x[0], amplitudes=x[1:n + 1], phases=x[n + 1:])
        ml, mh = half(r, 0, 1), half(r, 3, 5)
        al, ah, _, _ = bounds(n, 0, 2)
        pl, ph, _, _ = bounds(n, 0, 5)
        j.update(mean_lower_bounds=ml, mean_upper_bounds=mh, amplitude_lower_bounds=al, amplitude_upper_bounds=ah, phase_lower_bounds=pl, phase_upper_bounds=ph)
        L, H = [ml] + al + pl, [mh] + ah + ph
        if r.random() < .3:
            del j["amplitude_upper_bounds"]
            H = [mh] + [math.inf] * n + ph
    elif kind == "control":
        vs = [half(r, 0, 4), half(r, 0, 4)]
        p["at"] = r.choice([[0], [1], [0, 1], [1, 0]])
        L, H, l, h = bounds(len(p["at"]), both=False)
        j.update(type="controlcurve", storage_node="res", control_curves=[{"type": "constant", "value": .5}], values=list(vs), variable_indices=p["at"], lower_bounds=l, upper_bounds=h)
        p["a"] = vs
        x = [vs[i] for i in p["at"]]
    elif kind == "offset":
        c = half(r, 0, 2)
        L, H, l, h = bounds(1, both=True)
        x = [half(r, 0, 4)]
        j.update(type="offset", parameter={"type": "constant", "value": c}, offset=x[0], lower_bounds=l, upper_bounds=h)
        p["a"] = [c]
    else:
        x = [half(r, -1, 3)]
        L, H = [half(r, -2, -1)], [half(r, 2, 4)]
        j.update(value=x[0], lower_bounds=L[0], upper_bounds=H[0])
        if kind == "binary":
            o = half(r, 0, 4)
            j.update(type="binarystep", output=o)
            p["a"] = [o]
        elif kind == "rectifier":
            lo, hi = half(r, 0, 1), half(r, 1, 4)
            j.update(type="rectifier", min_output=lo, max_output=hi)
            p["a"] = [lo, hi, H[0]]
        else:
            j.update(type="logistic", max_output=half(r, 1, 4), growth_rate=half(r, .5, 2))
    if r.random() < .15:
        p["json"].pop("is_variable", None)
    j["is_variable"] = p["variable"]
    p["start"] = {"d": x, "i": list(p.get("ints", [])) if "ilo" in p else []}
    p["lo"], p["hi"] = L, H
    p.setdefault("ilo", [])
    p.setdefault("ihi", [])
    return p


def whole(j):
    if isinstance(j, dict):
        return {k: whole(v) for k, v in j.items()}
    if isinstance(j, list):
        return [int(x) for x in j] if all(isinstance(x, (int, float)) and x == int(x) for x in j) else [whole(x) for x in j]
    return int(j) if isinstance(j, float) and j == int(j) else j


OBJ = ["minimise", "maximise", "minimize", "maximize", "min", "max"]


def gen_rec(r, case, n):
    fn = r.choice(["mean", "sum", "min", "max"])
    d = {"name": "r%d" % n, "agg_func": fn}
    exact = r.random() < .75
    if exact:
        d.update(type="affine", base=[half(r, -2, 4) for _ in range(case["scen"])])
        if r.random() < .7:
            d.update(of=r.choice(case["params"])["name"], coef=r.choice([1.0, -1.0, 2.0]))
        if r.random() < .1:
            d["base"][r.randrange(len(d["base"]))] = None
            if r.random() < .5:
                d["ignore_nan"] = True
    else:
        p = r.choice(case["params"])
        d.update(r.choice([{"type": "totalflownode", "node": "alt 1"}, {"type": "totalflownode", "node": "rout"}, {"type": "numpyarrayparameter", "parameter": p["name"], "temporal_agg_func": "max"}]))
    obj = r.choice(OBJ + [None] * 3)
    if obj:
        d["is_objective"] = obj
    lo, hi = (None, None) if r.random() < .4 else (half(r, -2, 5), half(r, -2, 5))
    if lo is not None:
        lo, hi = min(lo, hi), max(lo, hi)
        k = r.random()
        if k < .3:
            lo = None
        elif k < .6:
            hi = None
        elif k < .8:
            lo = hi
    if lo is not None:
        d["constraint_lower_bounds"] = lo
    if hi is not None:
        d["constraint_upper_bounds"] = hi
    return {"json": d, "fn": fn, "ignore": d.get("ignore_nan", False), "obj": obj or "", "lo": lo, "hi": hi, "exact": exact}


def gen_problem(r, direct=False):
    start = pd.Timestamp(r.choice(["2019-12-30", "2020-02-27", "2021-05-29", "2020-08-31"]))
    step = r.choice([1, 1, 7, 31])
    n = r.choice([2, 3, 5])
    case = {"type": "direct" if direct else "wrapped", "start": str(start.date()), "end": str((start + pd.Timedelta(days=step * n - 1)).date()), "step": step, "steps": n,
            "solver": r.choice(SOLVERS), "once": r.random() < .3, "scen": r.choice([1, 1, 2, 4]), "own": r.random() < .3}
    kinds = ["constant", "constant", "monthly", "rbf", "harmonic", "control", "offset", "binary", "rectifier", "logistic"]
    case["params"] = [gen_param(r, "v%d" % (i + 1), kinds) for i in range(r.choice([1, 2, 3, 4]))]
    if r.random() < .3:
        # whole numbers are written as such
        for p in case["params"]:
            p["json"] = whole(p["json"])
    if not any(p["variable"] for p in case["params"]):
        case["params"][0]["variable"] = case["params"][0]["json"]["is_variable"] = True
    # what the variable costs, and shares of flows, depend on
    pos = [p["name"] for p in case["params"] if p["kind"] in ("constant",)]
    case["costby"] = r.choice(pos + [None]) if pos else None
    case["inflow"] = [half(r, 0, 4) for _ in range(case["scen"])]
    case["recs"] = [gen_rec(r, case, i + 1) for i in range(r.choice([1, 2, 3, 4]))]
    if not any(x["obj"] for x in case["recs"]):
        case["recs"][0]["obj"] = case["recs"][0]["json"]["is_objective"] = r.choice(OBJ)
    if any(x["lo"] is None and x["hi"] is None and not x["obj"] for x in case["recs"]):
        pass
    return case


def document(case, values=None):
    """values: what the parameters have, as a model with these from the start is written"""
    d = {"metadata": {"title": "t", "minimum_version": "1.0"}, "timestepper": {"start": case["start"], "end": case["end"], "timestep": case["step"]},
         "nodes": [], "edges": [], "parameters": {}, "recorders": {}}
    d["solver"] = {"name": case["solver"]}
    if case["once"] and case["solver"] != "lpsolve":
        d["solver"].update(set_fixed_flows_once=True, set_fixed_costs_once=True, set_fixed_factors_once=True)
    if case["scen"] > 1:
        d["scenarios"] = [{"name": "s", "size": case["scen"]}]
    N, E, P = d["nodes"], d["edges"], d["parameters"]
    flow = {"type": "constantscenario", "scenario": "s", "values": case["inflow"]} if case["scen"] > 1 else case["inflow"][0]
    N += [{"name": "rin", "type": "catchment", "flow": flow}, {"name": "res", "type": "storage", "max_volume": 20.0, "initial_volume": 10.0, "cost": 0.25},
          {"name": "rout", "type": "output", "max_flow": 2.0, "cost": -5.0}, {"name": "spill", "type": "output", "cost": 50.0}]
    E += [["rin", "res"], ["res", "rout"], ["rin", "spill"]]
    N += [{"name": "alt 1", "type": "input", "max_flow": 3.0, "cost": case["costby"] or 1.1}, {"name": "alt 2", "type": "input", "max_flow": 3.0, "cost": 1.3},
          {"name": "need", "type": "output", "max_flow": 4.0, "cost": -20.0}]
    E += [["alt 1", "need"], ["alt 2", "need"]]
    P["band"] = {"type": "controlcurveindex", "storage_node": "res", "control_curves": [{"type": "constant", "value": .5}]}
    for i, p in enumerate(case["params"]):
        if "alias" in p:
            continue
        j = copy.deepcopy(p["json"])
        if values:
            v = values[i]
            x, k = v["d"], p["kind"]
            if k in ("constant", "binary", "rectifier", "logistic"):
                j["value"] = x[0]
            elif k in ("monthly", "monthlyinterp"):
                j["values"] = x
            elif k == "rbf":
                j["values"] = x
                j["days_of_year"] = [1] + [int(y) for y in v["i"]]
                for o in ("variable_days_of_year_range", "variable_days_lower_bounds", "variable_days_upper_bounds"):
                    j.pop(o, None)
            elif k == "harmonic":
                n = len(j["amplitudes"])
                j.update(mean=x[0], amplitudes=x[1:n + 1], phases=x[n + 1:])
            elif k == "control":
                for o, at in enumerate(p["at"]):
                    j["values"][at] = x[o]
            elif k == "offset":
                j["offset"] = x[0]
        P[p["name"]] = j
        if p["limits"]:
            N += [{"name": "in " + p["name"], "type": "input", "max_flow": {"type": "max", "parameter": p["name"], "threshold": 0.0}}, {"name": "out " + p["name"], "type": "output", "cost": -10.0, "max_flow": 1000.0}]
            E.append(["in " + p["name"], "out " + p["name"]])
    for x in case["recs"]:
        j = copy.deepcopy(x["json"])
        d["recorders"][j.pop("name")] = j
    return d


class Custom:
    def customise_model(self, model):
        self.customised = getattr(self, "customised", 0) + 1
        Spy(model, self.case, [p["name"] for p in self.case["params"]])


class PW(Custom, PlatypusWrapper):
    def __init__(self, case, *a, **k):
        self.case = case
        super().__init__(*a, **k)


class GW(Custom, PygmoWrapper):
    def __init__(self, case, *a, **k):
        self.case = case
        super().__init__(*a, **k)


class Plain(Custom, opt.BaseOptimisationWrapper):
    def __init__(self, case, *a, **k):
        self.case = case
        super().__init__(*a, **k)


def read(m, case):
    out = []
    for p in case["params"]:
        x = m.parameters[p["name"]]
        out.append({"d": [q(v) for v in x.get_double_variables()] if x.double_size else [], "i": [int(v) * 1000 for v in x.get_integer_variables()] if p["start"]["i"] else []})
    return out


def spy(m):
    return m.recorders["the spy"]


def run_wrapped(case):
    names = [p["name"] for p in case["params"]]
    folder = "c27_%s" % uuid.uuid4().hex
    os.makedirs(folder)
    path = os.path.join(folder, "problem.json")
    with open(path, "w") as f:
        json.dump(document(case), f)
    uid = uuid.uuid4().hex
    ev = []
    ws = {}

    def wrapper(u, by):
        if (u, by) not in ws:
            ws[u, by] = {"platypus": PW, "pygmo": GW, "run": Plain}[by](case, path, uid=uid + u)
        return ws[u, by]

    try:
        if case["type"] == "direct":
            direct = build_direct(case, path)
        for o in case["ops"]:
            e = dict(o)
            k = o["op"]
            u = o.get("u", "a")
            m = None
            if k == "set":
                m = direct if case["type"] == "direct" else wrapper(u, "run").model
                x = m.parameters[names[o["j"] - 1]]
                held = x.get_double_variables() if o["which"] == "d" else x.get_integer_variables()
                was, given = [q(v) for v in held], np.array(o["x"], dtype=float if o["which"] == "d" else np.int32)
                if o["which"] == "d":
                    x.set_double_variables(given)
                else:
                    x.set_integer_variables(given)
                given[:] = -7       # the caller's array and the values read before are the caller's
                e["held"] = [q(v) for v in held] == was
                e["x"] = [q(v) for v in o["x"]]
            elif k == "eval":
                by = o["by"]
                if case["type"] == "direct":
                    m = direct
                    vs = [v for v in m.variables]
                    rob, rco = list(m.objectives), list(m.constraints)
                else:
                    w = wrapper(u, by)
                    m = w.model
                    vs, rob, rco = w.model_variables, w.model_objectives, w.model_constraints
                e["order"] = [names.index(v.name) + 1 for v in vs]
                rn = [x["json"]["name"] for x in case["recs"]]
                e["robj"] = [rn.index(x.name) + 1 for x in rob]
                e["rcon"] = [rn.index(x.name) + 1 for x in rco]
                x = []
                if by != "run":
                    for n in e["order"]:
                        x += o["vec"][n - 1]
                e["x"] = [q(v) for v in x]
                del e["vec"]
                if by == "run":
                    m.run()
                elif by == "platypus":
                    pr = w.problem
                    e["types"] = [[q(t.min_value), q(t.max_value)] for t in pr.types]
                    e["nobj"], e["ncon"] = pr.nobjs, pr.nconstrs
                    e["ops"] = [[c.op[:2], q(float(c.op[2:]))] for c in pr.constraints]
                    s = platypus.Solution(pr)
                    s.variables[:] = x
                    pr(s)
                    e["objs"], e["cons"], e["ofeasible"] = [q(v) for v in s.objectives], [q(v) for v in s.constraints], bool(s.feasible)
                else:
                    pr = pygmo.problem(w) if pygmo else None
                    lo, hi = w.get_bounds()
                    e["lo"], e["hi"] = [q(v) for v in lo], [q(v) for v in hi]
                    e["nobj"], e["nec"], e["nic"] = w.get_nobj(), w.get_nec(), w.get_nic()
                    f = list(pr.fitness(x)) if pr else list(w.fitness(x))
                    e["objs"], e["cons"] = [q(v) for v in f[:e["nobj"]]], [q(v) for v in f[e["nobj"]:]]
                    e["ofeasible"] = all(v == 0 for v in f[e["nobj"]:e["nobj"] + e["nec"]]) and all(v <= 0 for v in f[e["nobj"] + e["nec"]:])
                    if pr:
                        e["ofeasible"] = bool(pr.feasibility_f(f))
                s = spy(m)
                e["rows"], e["all"] = s.rows, [list(x) for x in s.all]
                e["vals"] = [[q(v) for v in m.recorders[n].values()] for n in rn]
                e["agg"] = [q(m.recorders[n].aggregated_value()) for n in rn]
                e["violated"], e["kinds"] = [], []
                for n in rn:
                    x = m.recorders[n]
                    try:
                        e["violated"].append("yes" if x.is_constraint_violated() else "no")
                    except ValueError:
                        e["violated"].append("refused")
                    e["kinds"].append([bool(x.is_constraint), bool(x.is_equality_constraint), bool(x.is_double_bounded_constraint), bool(x.is_lower_bounded_constraint), bool(x.is_upper_bounded_constraint)])
                e["feasible"] = bool(m.is_feasible())
                e["all"].append([v for vs in e["vals"] for v in vs])
                e["fresh"], e["anew"] = not case.get("alias"), []
                if e["fresh"]:
                    now = [{"d": [float(v) for v in m.parameters[n].get_double_variables()] if m.parameters[n].double_size else [],
                            "i": [int(v) for v in m.parameters[n].get_integer_variables()] if p["kind"] == "rbf" else []} for n, p in zip(names, case["params"])]
                    g = Model.load(document(case, now))
                    gs = Spy(g, case, names)
                    g.run()
                    e["anew"] = [list(x) for x in gs.all] + [[q(v) for n in rn for v in g.recorders[n].values()]]
            elif k == "clear":
                opt.clear_global_model_cache()
            elif k == "generate":
                w = wrapper(u, "platypus")
                e["order"] = [names.index(v.name) + 1 for v in w.model_variables]
                given = {n: {"doubles": v["d"], "integers": v["i"]} for n, v in zip(names, o["given"])} if o["kind"] == "given" else None
                g = PywrRandomGenerator(wrapper=w, use_current=o["kind"] == "current", **({"solutions": [given]} if given else {}))
                e["y"] = [q(v) for v in g.generate(w.problem).variables]
                e["given"] = [{"d": [q(x) for x in v["d"]], "i": [q(x) for x in v["i"]]} for v in o["given"]]
            elif k in ("lower", "upper"):
                x = direct.recorders[case["recs"][o["r"] - 1]["json"]["name"]]
                e["out"] = "ok"
                try:
                    setattr(x, "constraint_%s_bounds" % k, o["v"])
                except ValueError:
                    e["out"] = "refused"
                e["v"] = q(o["v"]) if o["v"] is not None else NONE
            if case["type"] == "direct":
                e["after"] = [["a", read(direct, case)]]
            else:
                e["after"] = [[u, read(opt.MODEL_CACHE[uid + u].model, case)] for u in ("a", "b") if uid + u in opt.MODEL_CACHE]
            ev.append(e)
    finally:
        opt.clear_global_model_cache()
        import shutil
        shutil.rmtree(folder)
    fx = lambda v: NONE if v is None else q(v)
    return {"ev": ev, "steps": case["steps"],
            "params": [{"kind": p["kind"], "variable": p["variable"], "limits": p["limits"], "a": [q(x) for x in p["a"]], "at": p["at"], "lo": [q(x) for x in p["lo"]], "hi": [q(x) for x in p["hi"]],
                        "ilo": [1000 * x for x in p["ilo"]], "ihi": [1000 * x for x in p["ihi"]],
                        "start": {"d": [q(x) for x in p["start"]["d"]], "i": [1000 * x for x in p["start"]["i"]]}} for p in case["params"]],
            "recs": [{"fn": x["fn"], "ignore": x["ignore"], "obj": x["obj"], "lo": fx(x["lo"]), "hi": fx(x["hi"]), "exact": x["exact"]} for x in case["recs"]]}


def build_direct(case, path):
    m = Model.load(path)
    shared = {}
    for p in case["params"]:
        # parameters made of the same arrays
        if "alias" in p:
            a = shared.setdefault(p["alias"], [np.array(p["a"], dtype=float), np.array(p["start"]["d"], dtype=float)])
            k = p["kind"]
            kw = {"name": p["name"], "is_variable": p["variable"]}
            if k == "control":
                ConstantParameter(m, .5, name="curve of " + p["name"])
                ControlCurveParameter(m, m.nodes["res"], [m.parameters["curve of " + p["name"]]], values=a[0], variable_indices=p["at"], **kw)
            elif k == "monthly":
                MonthlyProfileParameter(m, a[1], **kw)
            elif k == "rbf":
                RbfProfileParameter(m, [1, 100, 200, 300][:len(a[1])], a[1], **kw)
            elif k == "harmonic":
                n = len(a[1]) // 2
                AnnualHarmonicSeriesParameter(m, a[1][0], a[1][1:n + 1], a[1][n + 1:], **kw)
    Spy(m, case, [p["name"] for p in case["params"]])
    return m


# ------------------------------------------------------------------------------------------------ histories
def vec(r, p, wide=False):
    d = []
    for lo, hi in zip(p["lo"], p["hi"]):
        hi = min(hi, lo + 6)
        d.append(half(r, lo - (1 if wide else 0), hi + (1 if wide else 0)))
    i = []
    for lo, hi in zip(p["ilo"], p["ihi"]):
        i.append(r.randint(lo, hi) + (r.choice([0, 0, .25, -.25, .375]) if not wide else r.choice([0, -30, 30])))
    # within the bounds when rounded
    if not wide:
        i = [min(max(x, lo), hi) for x, lo, hi in zip(i, p["ilo"], p["ihi"])]
    return d, i


def gen(r, n):
    direct = r.random() < .3
    case = gen_problem(r, direct)
    if direct and r.random() < .6:
        case["alias"] = True
        k = r.choice(["control", "monthly", "rbf", "harmonic"])
        m = len(case["params"])
        size = {"control": 2, "monthly": 12, "rbf": 4, "harmonic": 3}[k]
        x = [half(r, 0, 4) for _ in range(size)]
        for i in range(2):
            at = r.choice([[0], [1], [0, 1]]) if k == "control" else []
            s = [x[y] for y in at] if k == "control" else list(x)
            case["params"].append({"name": "v%d" % (m + i + 1), "kind": k if k in ("control", "monthly") else k, "variable": True, "limits": False, "a": list(x) if k == "control" else [], "at": at,
                                   "alias": "shared", "json": None, "start": {"d": s, "i": []}, "lo": [0.0] * len(s), "hi": [4.0] * len(s), "ilo": [], "ihi": []})
    P = case["params"]
    ops = case["ops"] = []
    finite = all(math.isfinite(h) for p in P for h in p["hi"])
    bys = ["run"] if direct else ["platypus", "platypus", "pygmo", "pygmo", "run"]
    while len(ops) < n:
        u = "a" if direct else r.choice(["a", "a", "b"])
        x = r.random()
        if x < .45:
            v = []
            for p in P:
                d, i = vec(r, p)
                v.append(d + i)
            ops.append({"op": "eval", "u": u, "by": r.choice(bys), "vec": v})
        elif x < .7:
            j = r.randrange(len(P))
            d, i = vec(r, P[j])
            if i and r.random() < .5:
                ops.append({"op": "set", "u": u, "j": j + 1, "which": "i", "x": [int(round(y)) for y in i]})
            else:
                ops.append({"op": "set", "u": u, "j": j + 1, "which": "d", "x": d})
        elif direct:
            ops.append({"op": r.choice(["lower", "upper"]), "r": r.randrange(len(case["recs"])) + 1, "v": r.choice([None, half(r, -2, 5), half(r, -2, 5)])})
        elif x < .78:
            ops.append({"op": "clear"})
        else:
            given = []
            for p in P:
                d, i = vec(r, p, True)
                given.append({"d": d, "i": [int(y) for y in i]})
            ops.append({"op": "generate", "u": u, "kind": r.choice(["current", "given", "random"] if finite else ["current", "given"]), "given": given})
    if direct:
        ops.append({"op": "eval", "u": "a", "by": "run", "vec": [[] for _ in P]})
    return case


# ------------------------------------------------------------------------------------------------ searches
def gen_search(r):
    lb = half(r, 0, 4)
    ub = lb + half(r, 1, 20)
    case = {"type": "search", "start": "2020-02-27", "end": "2020-03-0%d" % r.randint(1, 6), "solver": r.choice(SOLVERS), "scen": r.choice([1, 2]), "lb": lb, "ub": ub,
            "eps": r.choice([.001, .01, .1, .4]), "fail": r.random() < .6, "also": r.choice([None, round(r.uniform(lb - 1, ub + 2), 3)]), "least": r.random() < .3, "by": r.choice(["json", "code"]), "params": [],
            "caps": [], "wrapped": r.random() < .3}
    for _ in range(r.choice([1, 2, 3])):
        case["caps"].append(r.choice([round(r.uniform(max(lb - 1, 0), ub + 2), 3), round(r.uniform(lb, ub), 3), lb, ub, round(lb + case["eps"] / 2, 4), lb + case["eps"] * 2]))
    case["more"] = round(r.uniform(0, 2), 2)
    return case


class SW(PlatypusWrapper):
    def customise_model(self, model):
        Seen(model)


class Seen(Recorder):
    def __init__(self, m):
        super().__init__(m, name="seen")
        self.tried = []

    def after(self):
        m = self.model
        if m.timestepper.current.index == 0:
            self.tried.append(float(m.parameters["x"].get_all_values()[0]))
        self.last = [float(v) for v in m.parameters["x"].get_all_values()] + [float(v) for v in m.nodes["demand"].get_all_max_flow()]

    def values(self):
        return np.zeros(len(self.model.scenarios.combinations))


def run_search(case):
    S = case["scen"]
    d = {"metadata": {"title": "t", "minimum_version": "1.0"}, "timestepper": {"start": case["start"], "end": case["end"], "timestep": 1}, "solver": {"name": case["solver"]},
         "nodes": [{"name": "supply", "type": "input", "max_flow": "cap of all"}, {"name": "demand", "type": "output", "max_flow": "x", "cost": -10.0}], "edges": [["supply", "demand"]],
         "parameters": {"x": {"type": "constant", "value": case["lb"] + .3, "lower_bounds": case["lb"], "upper_bounds": case["ub"]},
                        "cap": {"type": "constant", "value": 5.0, "lower_bounds": 0.0, "upper_bounds": 100.0, "is_variable": True},
                        "cap of all": {"type": "aggregated", "agg_func": "sum", "parameters": ["cap", {"type": "constantscenario", "scenario": "s", "values": [case["more"], 0.0]} if S > 1 else 0.0]}},
         "recorders": {"deficit": {"type": "totaldeficitnode", "node": "demand", "constraint_upper_bounds": 1e-5, "agg_func": "max", "is_objective": "min"}}}
    if S > 1:
        d["scenarios"] = [{"name": "s", "size": 2}]
    if case["also"] is not None:
        d["recorders"]["also"] = {"type": "numpyarrayparameter", "parameter": "x", "temporal_agg_func": "mean", "constraint_upper_bounds": case["also"]}
    if case["least"]:
        d["recorders"]["least"] = {"type": "numpyarrayparameter", "parameter": "x", "temporal_agg_func": "mean", "constraint_lower_bounds": case["lb"] - 5.0}
    if case["by"] == "json" or case["wrapped"]:
        d["bisection"] = {"parameter": "x", "epsilon": case["eps"]}
        if not case["fail"]:
            d["bisection"]["error_on_infeasible"] = False
    folder = "c27_%s" % uuid.uuid4().hex
    os.makedirs(folder)
    path = os.path.join(folder, "problem.json")
    with open(path, "w") as f:
        json.dump(d, f)
    ev = []
    try:
        if case["wrapped"]:
            w = SW(path, model_klass=BisectionSearchModel, uid=uuid.uuid4().hex)
            m = w.model
        else:
            m = BisectionSearchModel.load(path)
            Seen(m)
        if case["by"] == "code":
            m.bisect_parameter, m.bisect_epsilon, m.error_on_infeasible = "x", case["eps"], case["fail"]
        for cap in case["caps"]:
            seen = m.recorders["seen"]
            seen.tried = []
            out = "ok"
            limit = cap if case["also"] is None else min(cap, case["also"])
            try:
                if case["wrapped"]:
                    w.evaluate([cap])
                else:
                    m.parameters["cap"].set_double_variables(np.array([cap]))
                    m.run()
            except ValueError:
                out = "failed"
            x = float(m.parameters["x"].get_double_variables()[0])
            ev.append({"op": "search", "lb": q(case["lb"]), "ub": q(case["ub"]), "eps": q(case["eps"]), "limit": q(limit), "fail": case["fail"], "out": out, "value": q(x) if out == "ok" else 0,
                       "shown": [q(v) for v in seen.last] if out == "ok" else [], "tried": [q(v) for v in seen.tried], "feasible": bool(m.is_feasible()), "after": []})
    finally:
        opt.clear_global_model_cache()
        import shutil
        shutil.rmtree(folder)
    return {"ev": ev, "steps": 0, "params": [], "recs": []}


def run_case(case):
    return run_search(case) if case["type"] == "search" else run_wrapped(case)


def key(c):
    return c["type"]


def run(chk):
    chk.model_check("MCOptimise", "MCOptimise" if chk.quick else "MCOptimiseFull")
    chk.model_check("MCBisect", "MCBisect" if chk.quick else "MCBisectFull")
    cases = [gen(chk.rng, chk.rng.randrange(3, 8)) for _ in range(chk.n(130, 3000))] + [gen_search(chk.rng) for _ in range(chk.n(70, 2000))]
    traces = chk.run_cases(run_case, cases)
    chk.extra["pygmo"] = pygmo is not None
    did = {}
    for c, t in zip(cases, traces):
        for e in (t.get("ev", []) if isinstance(t, dict) else []):
            n = "%s %s" % (e["op"], e.get("by") or e.get("kind") or e.get("out") or "")
            did[n] = did.get(n, 0) + 1
    chk.extra["events"] = did
    chk.validate("TraceOptimise", cases, traces, key=key, what="optimisation")
