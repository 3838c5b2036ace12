"""C30: what is reported about runs (progress, results, profiles, settings, flow diagrams, densities, assertions) against Summary.tla and Density.tla"""
import datetime, json, os, re, shutil, warnings
import numpy as np
import pandas as pd
from common import q
from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Link, Storage, PiecewiseLink, AggregatedNode, LossLink, DelayNode
from pywr.parameters import ArrayIndexedParameter, ArrayIndexedScenarioParameter, ConstantParameter, AggregatedParameter, MonthlyProfileParameter, Parameter, IndexParameter
from pywr.recorders import Recorder, TablesRecorder, NumpyArrayNodeRecorder, TotalFlowNodeRecorder, GaussianKDEStorageRecorder, NormalisedGaussianKDEStorageRecorder, AssertionRecorder, assert_rec
from pywr.recorders.progress import ProgressRecorder
from pywr.notebook.sankey import routes_to_sankey_links

S = 10000
AGG = {"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min}
ENV = {"set_fixed_flows_once": "PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE", "set_fixed_costs_once": "PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE",
       "set_fixed_factors_once": "PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE", "use_unsafe_api": "PYWR_SOLVER_GLPK_UNSAFE_API"}
WORDS = ["1", "0", "true", "True", "TRUE", "tRUE", "false", "False", "yes", ""]


def gen_slice(rng, n, name):
    """a selection of n things: how it is asked for, and the positions it stands for"""
    k = rng.choice(["none", "none", "slice", "int", "list", "step"])
    if k == "none":
        return None, list(range(n))
    if k == "slice":
        a = rng.randrange(n); b = rng.randrange(a + 1, n + 1)
        return [a, b, 1], list(range(a, b))
    if k == "step":
        a = rng.randrange(n)
        return [a, n, 2], list(range(a, n, 2))
    if k == "int":
        a = rng.randrange(n)
        return a, [a]
    l = sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
    return {"list": l}, l


def as_slice(x):
    return None if x is None else x if isinstance(x, int) else x["list"] if isinstance(x, dict) else slice(*x)


def gen_links(rng, n, shape, names):
    ts, times = gen_slice(rng, n, "t")
    first = shape[0] if shape else 1
    ss, at = gen_slice(rng, first, "s")
    rest = int(np.prod(shape[1:])) if len(shape) > 1 else 1
    combs = [i * rest + j for i in at for j in range(rest)]
    e = {"ts": ts, "ss": ss, "times": [t + 1 for t in times], "combs": [c + 1 for c in combs], "tagg": "only" if isinstance(ts, int) else rng.choice(list(AGG)), "sagg": rng.choice(list(AGG)),
         "circ": rng.random() < .4, "thr": rng.choice([None, 0, rng.randrange(0, 40) * 2500 + 371]), "call": rng.random() < .4}
    e["group"] = {n_: rng.choice("xyz") for n_ in names} if rng.random() < .4 else None
    e["side"] = rng.random() < .5       # the names of starts and ends differ
    e["dropends"] = [rng.choice(names)] if rng.random() < .5 else []
    return e


def gen(rng):
    what = rng.choice(["links", "links", "links", "progress", "progress", "profile", "setting", "setting", "density", "density", "assert"])
    case = {"what": what, "seed": rng.randrange(10 ** 9), "solver": rng.choice(["glpk", "lpsolve"]), "step": rng.choice([1, 1, 2, 7]), "day0": (datetime.date(2015, 1, 1) + datetime.timedelta(rng.randrange(700))).isoformat()}
    case["n"] = rng.randrange(1, 8)
    case["shape"] = rng.choice([[], [2], [3], [2, 2], [2, 3], [4]])
    case["select"] = rng.choice([None, None, "comb", "slice"]) if case["shape"] else None
    if what == "progress":
        case["n"] = rng.choice([1, 2, 3, 7, 29, 57, 99, 100, 101, 150, 199, 200, 230, 333])
        case["solver"] = rng.choice(["glpk", "glpk-edge", "lpsolve"])
        case["runs"] = rng.choice([1, 1, 2])
        case["again"] = rng.choice([0, 0, 1, 5, 50, 100, 120])     # 0: nothing is changed
    case["nin"], case["nout"] = rng.randrange(1, 4), rng.randrange(1, 4)
    case["mid"] = rng.choice(["none", "link", "store", "piece", "loop"])
    names = ["in%d" % i for i in range(case["nin"])] + ["out%d" % i for i in range(case["nout"])] + ["st"]
    eff = list(case["shape"])
    if case["select"] == "comb":
        allc = [list(x) for x in np.ndindex(*case["shape"])]
        case["combs"] = sorted(rng.sample(allc, rng.randrange(1, len(allc) + 1)))
        eff = [len(case["combs"])]
    elif case["select"] == "slice":
        case["slices"] = []
        for s in case["shape"]:
            a = rng.randrange(s); b = rng.randrange(a + 1, s + 1)
            case["slices"].append([a, b])
        eff = [b - a for a, b in case["slices"]]
    case["eff"] = eff
    if what == "links":
        case["asks"] = [gen_links(rng, case["n"], eff, names) for _ in range(4)]
    if what in ("density", "assert"):
        case["runs"] = rng.choice([1, 1, 2])
    if what == "density":
        case["n"] = rng.choice([12, 20, 40, 70, 100])
        case["step"] = rng.choice([1, 1, 7])
        case["asks"] = [{"norm": rng.random() < .4, "refl": rng.random() < .7, "m": rng.choice([101, 101, 51, 201]), "target": rng.choice([1, 2, 3, 4, 5]) * 2000, "how": rng.choice(["none", "none", "min", "max", "mean"]),
                         "freq": rng.choice(["M", "10D"]) if case["step"] == 1 else "M", "cc": round(rng.uniform(.2, .9), 2), "ccs": rng.random() < .4} for _ in range(3)]
    if what == "assert":
        case["asks"] = [{"by": rng.choice(["data", "func", "deco"]), "index": rng.random() < .3, "bad": [rng.randrange(10 ** 6) for _ in range(rng.choice([0, 0, 1, 1, 2]))]}]
    if what == "setting":
        case["asks"] = []
        for _ in range(5):
            opt = rng.choice(list(ENV) + ["use_presolve", "retry_solve"])
            case["asks"].append({"opt": opt, "kw": [rng.random() < .5] if rng.random() < .5 else [], "env": [rng.choice(WORDS)] if opt in ENV and rng.random() < .7 else [], "solver": rng.choice(["glpk", "glpk-edge"]),
                                 "way": rng.choice(["arg", "doc"])})
    return case


class Grab(Recorder):
    def reset(self):
        self.flow = []

    def after(self):
        self.flow.append(np.array(self.model.solver.routes_flows_array))


def build(case):
    import random
    rng = random.Random(case["seed"])
    d0 = datetime.date.fromisoformat(case["day0"])
    n, step = case["n"], case["step"]
    m = Model(start=d0.isoformat(), end=(d0 + datetime.timedelta(n * step - 1)).isoformat(), timestep=step, solver=case["solver"])
    scen = [Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["select"] == "slice" else None) for i, s in enumerate(case["shape"])]
    if case["select"] == "comb":
        m.scenarios.user_combinations = case["combs"]
    ins, outs = [], []
    for i in range(case["nin"]):
        if scen:
            s = rng.choice(scen)
            p = ArrayIndexedScenarioParameter(m, s, np.array([[rng.randrange(0, 16) / 2 for _ in range(s.size)] for _ in range(n)]), name="f%d" % i)
        else:
            p = ArrayIndexedParameter(m, np.array([rng.randrange(0, 16) / 2 for _ in range(n)]), name="f%d" % i)
        ins.append(Input(m, "in%d" % i, max_flow=p, cost=i))
    for i in range(case["nout"]):
        outs.append(Output(m, "out%d" % i, max_flow=ConstantParameter(m, rng.randrange(1, 10) / 2, name="d%d" % i), cost=-10.0 * (i + 1)))
    mid = case["mid"]
    if mid == "link":
        x = Link(m, "mid")
    elif mid == "piece":
        x = PiecewiseLink(m, 2, name="mid", max_flows=[2.0, None], costs=[1.0, 2.0])
    elif mid in ("store", "loop"):
        x = Storage(m, "st", max_volume=50.0, initial_volume=20.0, cost=-1.0)
    if mid == "none":
        for a in ins:
            for b in outs:
                a.connect(b)
    else:
        for a in ins:
            a.connect(x)
        for b in outs:
            x.connect(b)
        if mid == "loop":
            l = Link(m, "back", max_flow=1.0, cost=-5.0)
            x.connect(l); l.connect(x)
    if rng.random() < .5:
        AggregatedNode(m, "all", outs)
    NumpyArrayNodeRecorder(m, outs[0], name="r0")
    return m


def play(case):
    m = build(case)
    w = case["what"]
    evs = []
    out = {"ev": evs, "sum": {"routes": [], "flow": []}}
    n = case["n"]
    if w == "links":
        h5 = "c30_%d.h5" % case["seed"]
        TablesRecorder(m, h5, routes_flows="flows", name="tab")
        g = Grab(m, name="grab")
        m.run()

        def top(node):
            while node.parent is not None:
                node = node.parent
            return node.name
        routes = [[top(r[0]), top(r[-1])] for r in m.solver.routes]
        out["sum"] = {"routes": routes, "flow": [[[q(f[c, r], S) for c in range(f.shape[0])] for r in range(f.shape[1])] for f in g.flow]}
        names = sorted({x for r in routes for x in r})
        for a in case["asks"]:
            grp = a["group"]
            ren = {"s": {x: (grp.get(x, "z") if grp else x) for x in names}, "e": {x: ((grp.get(x, "z") + ("2" if a["side"] else "")) if grp else x) for x in names}}
            e = dict(a, k="links", ren=ren, drop=[], calls=[], thr=a["thr"] or 0)
            kw = {"ignore_circular": a["circ"]}
            if a["ts"] is not None:
                kw["time_slice"] = as_slice(a["ts"])
            if a["ss"] is not None:
                kw["scenario_slice"] = as_slice(a["ss"])
            if a["tagg"] != "mean" and a["tagg"] != "only":
                kw["time_agg_func"] = AGG[a["tagg"]]
            if a["sagg"] != "mean":
                kw["scenario_agg_func"] = AGG[a["sagg"]]
            if a["thr"] is not None:
                kw["flow_threshold"] = a["thr"] / S
            if grp:
                kw["rename_func"] = lambda x, s, ren=ren: ren["s" if s else "e"][x]
            if a["call"]:
                e["drop"] = [i + 1 for i, r in enumerate(routes) if r[1] in a["dropends"]]

                def call(s, t, v, e=e, a=a):
                    e["calls"].append([s, t, q(v, S)])
                    return None if t in a["dropends"] else True
                kw["callback_func"] = call
            got = routes_to_sankey_links(h5, "flows", **kw)
            e["got"] = [{"ends": [x["source"], x["target"]], "value": q(x["value"], S)} for x in got]
            for k in ("group", "side", "dropends", "call", "ts", "ss"):
                e.pop(k)
            evs.append(e)
        os.unlink(h5)
    elif w == "progress":
        said = {}

        def say(x):
            p = re.fullmatch(r"Completed (\d+)%(, \S+ steps/second)?", x)
            said.setdefault(m.timestepper.current.index, []).append((int(p.group(1)), p.group(2) is not None))
        ProgressRecorder(m, print_func=say, name="prog")
        for r in range(case["runs"]):
            if r and case["again"]:
                n = case["again"]
                m.timestepper.end = pd.Timestamp(case["day0"]) + pd.Timedelta(days=n * case["step"] - 1)
                if n > case["n"]:
                    n = case["n"]
                    m.timestepper.end = pd.Timestamp(case["day0"]) + pd.Timedelta(days=n * case["step"] - 1)
            said.clear()
            res = m.run()
            evs.append({"k": "begin"})
            for i in range(n):
                s = said.get(i, [])
                evs.append({"k": "step", "i": i + 1, "n": n, "said": [x[0] for x in s], "speed": bool(s and s[0][1])})
            df = res.to_dataframe()["Value"]
            fields = {"num_scenarios": res.num_scenarios, "timestep": res.timestep.datetime, "timesteps": res.timesteps, "time_taken": res.time_taken, "time_taken_before": res.time_taken_before, "time_taken_after": res.time_taken_after,
                      "time_taken_with_overhead": res.time_taken_with_overhead, "speed": res.speed, "solver_name": res.solver_name, "version": res.version}
            fields.update({"solver_settings." + k: v for k, v in m.solver.settings.items()})
            fields.update({"solver_stats." + k: v for k, v in m.solver.stats.items()})
            last = datetime.date.fromisoformat(case["day0"]) + datetime.timedelta((n - 1) * case["step"])
            evs.append({"k": "result", "steps": res.timesteps, "n": n, "combs": res.num_scenarios, "ncombs": int(np.prod(case["eff"])) if case["eff"] else 1, "solver": res.solver_name, "asked": case["solver"],
                        "last": res.timestep.datetime.strftime("%Y-%m-%d"), "end": last.isoformat(), "table": sorted("%s=%r" % (k, v) for k, v in df.items()), "fields": sorted("%s=%r" % (k, v) for k, v in fields.items()),
                        "settings": sorted("%s=%r" % x for x in res.solver_settings.items()), "really": sorted("%s=%r" % (k, getattr(m.solver, k)) for k in res.solver_settings)})
    elif w == "profile":
        f = "c30_%d.csv" % case["seed"]
        dump = case["seed"] % 2 == 0
        for way in ("setup", "reset", "setup"):
            kw = {"profile_dump_filename": f} if dump else {}
            p = m.setup(profile=True, **kw) if way == "setup" else m.reset(profile=True, **kw)
            nodes = [(x.__class__.__name__, x.name, x.parent is None) for x in m.graph.nodes()]
            comps = [(x.__class__.__name__, x.name) for x in m.components]
            want = []
            if way == "setup":
                want += ["setup|%s|%s" % x[:2] for x in nodes] + ["setup|%s|%s" % x for x in comps]
            want += ["reset|%s|%s" % x[:2] for x in nodes if x[2]] + ["reset|%s|%s" % x for x in comps]
            df = pd.read_csv(f) if dump else p.to_dataframe()
            isnode = {"%s|%s" % x[:2] for x in nodes}
            kinds = [(e.phase, "%s|%s" % (e.class_name, e.name) in isnode) for e in p.entries]
            evs.append({"k": "profile", "got": ["%s|%s|%s" % (e.phase, e.class_name, e.name) for e in p.entries], "want": want, "table": len(df),
                        "nodesfirst": kinds == sorted(kinds, key=lambda x: (x[0] != "setup", not x[1])), "nonneg": all(e.perf_counter >= 0 for e in p.entries)})
        if dump:
            os.unlink(f)
    elif w == "density":
        density(case, evs)
    elif w == "assert":
        assertion(case, evs)
    else:
        for a in case["asks"]:
            kw = {a["opt"]: a["kw"][0]} if a["kw"] else {}
            mine = dict(kw)
            old = os.environ.get(ENV.get(a["opt"], ""), None)
            if a["env"]:
                os.environ[ENV[a["opt"]]] = a["env"][0]
            try:
                if a["way"] == "arg":
                    m2 = Model(solver=a["solver"], solver_args=kw)
                else:
                    doc = {"metadata": {"title": "x", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-02", "timestep": 1}, "solver": dict(kw, name=a["solver"]),
                           "nodes": [{"name": "a", "type": "input", "max_flow": 1.0}, {"name": "b", "type": "output", "max_flow": 1.0, "cost": -1.0}], "edges": [["a", "b"]]}
                    m2 = Model.load(doc)
            finally:
                if a["env"]:
                    if old is None:
                        del os.environ[ENV[a["opt"]]]
                    else:
                        os.environ[ENV[a["opt"]]] = old
            others = [o for o in list(ENV) + ["use_presolve", "retry_solve"] if o != a["opt"]]
            evs.append({"k": "setting", "kw": a["kw"], "env": a["env"], "got": bool(getattr(m2.solver, a["opt"])),
                        "same": kw == mine and m2.solver.name == a["solver"] and not any(bool(getattr(m2.solver, o)) for o in others if ENV.get(o, "") not in os.environ)})
    return out


class Volumes(Recorder):
    """the volume of a storage as a part of its maximum"""
    def reset(self):
        self.v = []

    def after(self):
        s = self.model.nodes["s"]
        self.v.append([float(x) / 50.0 for x in s.volume])


class Curve(Parameter):
    def __init__(self, model, v, **kw):
        super().__init__(model, **kw)
        self.v = v

    def value(self, ts, si):
        return self.v[ts.index % len(self.v)][si.global_id % len(self.v[0])]


def density(case, evs):
    rng = np.random.RandomState(case["seed"] % 2 ** 31)
    n, step = case["n"], case["step"]
    d0 = datetime.date.fromisoformat(case["day0"])
    S_ = case["shape"][0] if case["shape"] else 1
    m = Model(start=d0.isoformat(), end=(d0 + datetime.timedelta(n * step - 1)).isoformat(), timestep=step, solver=case["solver"])
    Scenario(m, "s", size=S_)
    a = Input(m, "a", max_flow=Curve(m, rng.choice([0.0, 0.0, 2.0, 5.0, 9.0], size=(n, S_)), name="in"))
    b = Output(m, "b", max_flow=Curve(m, rng.choice([0.0, 1.0, 3.0, 7.0], size=(n, S_)), name="out"), cost=-100.0)
    s = Storage(m, "s", max_volume=50.0, initial_volume=round(float(rng.uniform(0, 50)), 1), cost=-1.0)
    a.connect(s); s.connect(b)
    grab, recs = Volumes(m, name="grab"), []
    for i, ask in enumerate(case["asks"]):
        kw = {"use_reflection": ask["refl"]} if not ask["refl"] or i % 2 else {}
        if ask["m"] != 101 or i % 2:
            kw["num_pdf"] = ask["m"]
        if ask["how"] != "none":
            kw.update(resample_freq=ask["freq"], resample_func=ask["how"])
        if ask["norm"]:
            cc = np.round(rng.uniform(.2, .9, size=(n, S_)), 2) if ask["ccs"] else np.full((n, S_), ask["cc"])
            recs.append((ask, cc, NormalisedGaussianKDEStorageRecorder(m, s, parameter=Curve(m, cc, name="cc%d" % i), name="k%d" % i, **kw)))
        else:
            recs.append((ask, np.full((n, S_), .5), GaussianKDEStorageRecorder(m, s, target_volume_pc=ask["target"] / 10000, name="k%d" % i, **kw)))
    days = [d0 + datetime.timedelta(i * step) for i in range(n)]
    for r in range(case["runs"]):
        if r:
            m.nodes["s"].initial_volume = 25.0
        try:
            m.run()
        except (np.linalg.LinAlgError, ValueError) as x:      # no estimate can be made of equal values, or of one
            if not isinstance(x, np.linalg.LinAlgError) and "infs or NaNs" not in str(x) and "multiple elements" not in str(x):
                raise
            continue
        vol = np.array(grab.v)
        for ask, cc, k in recs:
            v = np.where(vol < cc - 1e-12, vol / cc - 1, (vol - cc) / (1 - cc)) if ask["norm"] else vol
            group = [i for i in range(n)] if ask["how"] == "none" else [(d.year - d0.year) * 12 + d.month if ask["freq"] == "M" else (d - d0).days // 10 for d in days]
            how = "mean" if ask["how"] == "none" else ask["how"]
            x = pd.DataFrame(v).groupby(np.array(group)).agg(how).values.flatten()
            h = float(x.std(ddof=1) * len(x) ** -.2)
            if len(x) < 4 or h < .004:
                continue
            df = k.to_dataframe()
            pdf = df.values.flatten()
            evs.append({"k": "density", "norm": ask["norm"], "refl": ask["refl"], "how": how, "vol": [[q(y, S) for y in z] for z in vol], "cc": [[q(y, S) for y in z] for z in cc], "group": [g + 1 for g in group], "n": len(x), "h": q(h, S),
                        "m": ask["m"], "grid": [q(y, S) for y in df.index], "pdf": [q(y, S) for y in pdf], "values": [q(y, S) for y in np.array(k.values()).flatten()], "p": q(k.aggregated_value(), S), "target": ask["target"],
                        "at": (ask["m"] - 1) * ask["target"] // 10000 + 1})


def assertion(case, evs):
    rng = np.random.RandomState(case["seed"] % 2 ** 31)
    n, step = case["n"], case["step"]
    d0 = datetime.date.fromisoformat(case["day0"])
    for ask in case["asks"]:
        m = Model(start=d0.isoformat(), end=(d0 + datetime.timedelta(n * step - 1)).isoformat(), timestep=step, solver=case["solver"])
        for i, k in enumerate(case["shape"]):
            Scenario(m, "s%d" % i, size=k)
        S_ = int(np.prod(case["shape"])) if case["shape"] else 1
        act = rng.randint(0, 6, size=(n, S_))
        exp = act.copy()
        for b in ask["bad"]:
            exp[b % n, (b // n) % S_] += 1
        a, b = Input(m, "a", max_flow=5.0), Output(m, "b", max_flow=5.0, cost=-1.0)
        a.connect(b)
        if ask["index"]:
            p = Which(m, act, name="p")
        else:
            p = Curve(m, act, name="p")
        at = lambda ts, si: float(exp[ts.index, si.global_id])
        kw = {"get_index": True} if ask["index"] else {}
        if ask["by"] == "deco":
            assert_rec(m, p, name="x", **kw)(at)
        else:
            AssertionRecorder(m, p, name="x", **({"expected_func": at} if ask["by"] == "func" else {"expected_data": exp.astype(float)}), **kw)
        for _ in range(case["runs"]):
            e = {"k": "assert", "exp": exp.tolist(), "act": act.tolist(), "failed": False, "at": [0, 0], "steps": 0}
            try:
                e["steps"] = m.run().timesteps
            except AssertionError as x:
                e["failed"] = True
                g = re.search(r"timestep=(\d+), scenario=(\d+)", str(x))
                e["at"] = [int(g.group(1)) + 1, int(g.group(2)) + 1]
            evs.append(e)


class Which(IndexParameter):
    def __init__(self, model, v, **kw):
        super().__init__(model, **kw)
        self.v = v

    def index(self, ts, si):
        return int(self.v[ts.index, si.global_id])

    def value(self, ts, si):
        return 77.0


def run(chk):
    chk.model_check("MCSummary", None if chk.quick else "MCSummaryFull")
    chk.model_check("MCSummary", "MCSummaryProgress")
    chk.model_check("MCDensity", None if chk.quick else "MCDensityFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(480, 7000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceSummary", cases, traces, what="reports", chunks=6)
    kinds = {}
    for c, t in zip(cases, traces):
        for e in (t or {}).get("ev", []):
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    chk.extra["events"] = kinds
    for c in cases[:2]:
        chk.sample({k: c[k] for k in ("what", "n", "shape")})
