"""C20: recorded series and what is computed from them, against Record.tla"""
import calendar, datetime, random, warnings
import numpy as np
import pandas as pd
from common import q, SOLVERS, NAN, prepare, period
from c_c15 import near
from c_c16 import members_
from c_c17 import Tab, XTab
from pywr.core import Model, Input, Output, Link, Storage, Scenario, VirtualStorage, AggregatedStorage, AggregatedNode
from pywr.nodes import PiecewiseLink
import pywr.recorders as R
from pywr.recorders import calibration as CAL

NODES = ["a", "b", "a2", "c", "g"]
STORES = ["st", "st2", "vs", "ag"]
TABS = ["amax", "bmax", "a2max", "cmax", "bcost", "ccost", "curve", "val", "int", "level", "area"]
P_ = {k: i + 1 for i, k in enumerate(TABS)}
NOFN = {"fn": "mean", "p": 0, "kind": ""}
BASE = {"i": 1, "j": 0, "tf": NOFN, "af": NOFN, "ign": False, "fac": 2, "win": 1, "ps": [], "months": [], "thr": NAN, "lo": [], "hi": [], "src": [], "lb": NAN, "ub": NAN, "integ": False}
EXACT = ("flow", "deficit", "cost", "vol", "level", "area", "param")
CRISP = ("cost", "level", "area", "param")   # without a solver's rounding noise
LOOSE = ("supplied", "curtail", "prop", "norm", "hydro")
CURVES = ("fdc", "sfdc", "fdev", "sdc")
FITS = ("rmse", "mae", "mse", "pbias", "rsr", "nse")
SILENT = ("index", "rollwin", "rollmean")
CONST = ("totdef", "totflow", "meanflow", "deffreq", "minvol", "minthr", "count", "totpar", "meanpar", "energy")
CLS = {"flow": R.NumpyArrayNodeRecorder, "deficit": R.NumpyArrayNodeDeficitRecorder, "supplied": R.NumpyArrayNodeSuppliedRatioRecorder, "curtail": R.NumpyArrayNodeCurtailmentRatioRecorder,
       "cost": R.NumpyArrayNodeCostRecorder, "vol": R.NumpyArrayStorageRecorder, "prop": R.NumpyArrayStorageRecorder, "norm": R.NumpyArrayNormalisedStorageRecorder,
       "level": R.NumpyArrayLevelRecorder, "area": R.NumpyArrayAreaRecorder, "param": R.NumpyArrayParameterRecorder, "index": R.NumpyArrayIndexParameterRecorder,
       "hydro": R.HydropowerRecorder, "rollwin": R.RollingWindowParameterRecorder, "rollmean": R.RollingMeanFlowNodeRecorder, "profile": R.NumpyArrayDailyProfileParameterRecorder,
       "fdc": R.FlowDurationCurveRecorder, "sfdc": R.SeasonalFlowDurationCurveRecorder, "fdev": R.FlowDurationCurveDeviationRecorder, "sdc": R.StorageDurationCurveRecorder,
       "totdef": R.TotalDeficitNodeRecorder, "totflow": R.TotalFlowNodeRecorder, "meanflow": R.MeanFlowNodeRecorder, "deffreq": R.DeficitFrequencyNodeRecorder,
       "minvol": R.MinimumVolumeStorageRecorder, "minthr": R.MinimumThresholdVolumeStorageRecorder, "count": R.TimestepCountIndexParameterRecorder,
       "totpar": R.TotalParameterRecorder, "meanpar": R.MeanParameterRecorder, "energy": R.TotalHydroEnergyRecorder, "aggrec": R.AggregatedRecorder,
       "rmse": CAL.RootMeanSquaredErrorNodeRecorder, "mae": CAL.MeanAbsoluteErrorNodeRecorder, "mse": CAL.MeanSquareErrorNodeRecorder, "pbias": CAL.PercentBiasNodeRecorder,
       "rsr": CAL.RMSEStandardDeviationRatioNodeRecorder, "nse": CAL.NashSutcliffeEfficiencyNodeRecorder}


def spread(v, axis=None):
    return np.max(v, axis=axis) - np.min(v, axis=axis)


def e8(rng, lo, hi):
    return rng.randrange(int(lo * 8), int(hi * 8) + 1) / 8


def fn(rng, names):
    f = rng.choice(names)
    if f == "percentile":
        return {"fn": f, "p": rng.choice([0, 10, 25, 50, 75, 90, 100]), "kind": rng.choice(["args", "kwargs"])}
    if f == "percentileofscore":
        return {"fn": f, "p": rng.randrange(0, 25), "kind": rng.choice(["rank", "weak", "strict", "mean"])}
    return {"fn": f, "p": 0, "kind": ""}


PLAIN = ["sum", "min", "max", "mean"]
MORE = PLAIN + ["median", "percentile", "range"]
ALL = MORE + ["percentileofscore", "count_nonzero"]


def agg(d, rng, case):
    k, tf = d["kind"], d["tf"]["fn"]
    if k in CRISP + ("profile",) and tf in ("min", "max", "sum", "count_nonzero"):
        names = ALL
    elif k in ("energy", "aggrec", "totpar", "totflow") or (k == "vol" and tf == "sum"):
        names = PLAIN
    elif k in ("count", "minthr"):
        names = ALL
    else:
        names = MORE
    return fn(rng, names)


def one(rng, case, recs, kind=None):
    d = dict(BASE)
    kinds = list(EXACT) * 2 + list(LOOSE) + list(CURVES) + ["sfdc", "fdev"] + list(SILENT) + list(CONST)
    if isinstance(case["step"], int):
        kinds += list(FITS)
    if len(recs) > 1:
        kinds += ["aggrec"] * 3
    if rng.random() < .2:
        kinds += ["profile"]
    d["kind"] = k = kind or rng.choice(kinds)
    core = [1, 2, 3] + ([4] if case["link"] else [])
    if k in ("flow", "fdc", "sfdc", "fdev", "totflow", "meanflow"):
        d["i"] = rng.choice([1, 2, 3, 4, 4, 5])
        d["fac"] = rng.choice([2, 2, 1, 4, 3, -2])
    elif k in ("deficit", "supplied", "curtail", "cost") + FITS + ("hydro", "energy", "rollmean"):
        d["i"] = rng.choice(core)
    elif k in ("totdef", "deffreq"):
        d["i"] = rng.choice([1, 2, 3, 4, 4])
    elif k in ("vol", "prop", "norm", "sdc", "minvol", "minthr"):
        d["i"] = rng.choice([1, 1, 2, 3, 4])
    elif k in ("param", "profile", "totpar", "meanpar", "rollwin"):
        d["i"] = rng.choice([P_["val"]] * 3 + [P_["int"], P_["amax"], P_["bcost"]])
        if d["i"] == P_["val"] and case["gaps"] and k != "param":
            d["i"] = P_["int"]
    d["ign"] = rng.random() < (.6 if k == "param" and case["gaps"] else .2)
    if k in EXACT:
        d["tf"] = fn(rng, ALL if k in CRISP else MORE)
        if k == "param" and d["i"] == P_["int"] and rng.random() < .3:
            d["tf"] = fn(rng, ["product"])
    elif k in LOOSE + CURVES:
        d["tf"] = fn(rng, MORE)
    elif k == "profile":
        d["tf"] = fn(rng, PLAIN)
    elif k == "rollwin":
        d["tf"] = fn(rng, PLAIN + ["median"])
    if k == "norm":
        d["j"] = P_["curve"]
    if k in ("hydro", "energy"):
        d["j"] = rng.choice([P_["val"], 0]) if not case["gaps"] else 0
        d["thr"] = q(e8(rng, 0, 4)) if d["j"] == 0 or rng.random() < .7 else NAN
        d["fac"] = rng.choice([1, 2, 3, 4])
    if k in ("totpar", "meanpar"):
        d["fac"] = rng.choice([2, 1, 4, -3])
        d["integ"] = k == "totpar" and rng.random() < .5
    if k in ("rollwin", "rollmean"):
        d["win"] = rng.choice([1, 2, 3, 5, case["n"], case["n"] + 3])
        d["src"] = [rng.randrange(2)]
    if k in CURVES:
        d["ps"] = [rng.choice([0, 1, 5, 25, 33, 50, 80, 95, 99, 100]) for _ in range(rng.randrange(1, 5))]
        d["ps"] = list(dict.fromkeys(d["ps"]))
    if k == "sfdc":
        ms = sorted(set(months(case)))
        d["months"] = sorted(set([rng.choice(ms)] + [rng.randrange(1, 13) for _ in range(rng.randrange(0, 4))]))
    if k == "fdev":
        d["j"] = rng.choice([0, 0] + list(range(1, len(case["sizes"]) + 1)))
        n = len(members_(case)) if d["j"] == 0 else case["sizes"][d["j"] - 1]
        for f in rng.choice([("lo",), ("hi",), ("lo", "hi"), ("lo", "hi")]):
            w = rng.choice([1, n, n])
            d[f] = [[q(rng.choice([e8(rng, .5, 3)] * 12 + [0.0])) for _ in range(w)] for _ in d["ps"]]
    if k in FITS:
        w = rng.choice([1, len(members_(case))])
        d["lo"] = [[q(e8(rng, 0 if t else .5, 3)) for _ in range(w)] for t in range(case["n"])]
    if k == "minthr":
        d["thr"] = q(rng.choice([0.0, 16.0, e8(rng, 0, 15) + 1 / 16]) if case["cap"] == 16 else case["cap"] / 2 + e8(rng, -20, 20) + 1 / 16)
    if k == "count":
        d["thr"] = q(rng.randrange(0, 4))
    if k == "aggrec":
        ok = [i + 1 for i, r in enumerate(recs) if r["kind"] in EXACT + LOOSE + CONST + CURVES and r["kind"] not in ("energy", "fdev") and not (r["kind"] == "param" and case["gaps"])
              and not (r["kind"] == "vol" and r["tf"]["fn"] == "sum") and r["tf"]["fn"] != "product"] + [i + 1 for i, r in enumerate(recs) if r["kind"] == "aggrec"]
        if not ok:
            return one(rng, case, recs, "flow")
        d["src"] = rng.sample(ok, rng.randrange(1, min(4, len(ok)) + 1))
        names = PLAIN + ["range"]
        if all(recs[i - 1]["kind"] in ("count", "minthr") for i in d["src"]):
            names = names + ["product"] * 4
        d["tf"] = fn(rng, names)
        d["ign"] = False
    d["af"] = agg(d, rng, case)
    if k == "rollmean":
        d["ign"] = False
    if k not in SILENT and rng.random() < .4:
        lo, hi = sorted(rng.choice([e8(rng, -2, 8), e8(rng, 0, 60)]) for _ in range(2))
        c = rng.random()
        d["lb"] = q(lo) if c < .7 else NAN
        d["ub"] = q(hi) if c > .4 else NAN
        if c > .95:
            d["lb"] = d["ub"]
    return d


def starts(case):
    """(label, first day, days) of every timestep"""
    a = datetime.date.fromisoformat(case["start"])
    out = []
    if isinstance(case["step"], int):
        for i in range(case["n"]):
            d = a + datetime.timedelta(i * case["step"])
            out.append((d, d, case["step"]))
    elif case["step"] == "W":
        d = a - datetime.timedelta(a.weekday())
        for i in range(case["n"]):
            out.append((d + datetime.timedelta(6), d, 7))
            d += datetime.timedelta(7)
    else:
        y, m = a.year, a.month
        for i in range(case["n"]):
            n = calendar.monthrange(y, m)[1]
            out.append((datetime.date(y, m, n), datetime.date(y, m, 1), n))
            y, m = (y, m + 1) if m < 12 else (y + 1, 1)
    return out


def months(case):
    return [x[0].month for x in starts(case)]


def gen(rng):
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .4:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .6:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None]]) for s in sizes]
    a = near(rng, rng.choice([1999, 2000, 2015, 2016, 2020]))
    step = rng.choice([1, 1, 1, 2, 2, 5, 30, "M", "W"])
    n = rng.randrange(3, 14)
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "start": a.isoformat(), "n": n, "seed": rng.randrange(10 ** 6), "solver": rng.choice(SOLVERS),
            "json": rng.random() < .4, "gaps": rng.random() < .3, "cap": 16 if step in (1, 2) else 4096, "link": rng.random() < .6}
    case["initial"] = rng.choice([0, 4, 8, 16]) if case["cap"] == 16 else 2048
    recs = []
    for _ in range(rng.randrange(4, 11)):
        recs.append(one(rng, case, recs))
    runs = [{"recs": recs, "restart": rng.randrange(1, n) if rng.random() < .15 else None, "edge": 0}]
    if rng.random() < .25 and not any(d["kind"] == "profile" for d in recs):
        recs.append(one(rng, case, recs, "profile"))
    for _ in range(rng.choice([0, 0, 1, 1])):
        new = [dict(d) for d in runs[-1]["recs"]]
        for d in new:
            if rng.random() < .4 and d["kind"] not in SILENT:
                d["af"] = agg(d, rng, case)
        runs.append({"recs": new, "restart": rng.randrange(1, n) if rng.random() < .4 else None, "edge": 0})
    if rng.random() < .4:
        runs[-1]["edge"] = rng.randrange(1, 5)
    case["runs"] = runs
    return case


def tables(case, width):
    rng = random.Random(case["seed"])

    def rows(draw, hold=.4):
        out, cur = [], [draw() for _ in range(width)]
        for _ in range(case["n"]):
            if rng.random() > hold:
                cur = [draw() for _ in range(width)]
            out.append(cur)
        return out
    t = {k: rows(lambda: e8(rng, 0, 3) if rng.random() < .85 else 0.0) for k in ("amax", "bmax", "a2max", "cmax")}
    t["bcost"] = rows(lambda: e8(rng, -12, -8))
    t["ccost"] = rows(lambda: e8(rng, -3, 3))
    t["curve"] = rows(lambda: rng.choice([0.0, .125, .25, .5, .5, .625, .875, 1.0]))
    t["val"] = rows(lambda: float("nan") if case["gaps"] and rng.random() < .3 else e8(rng, -5, 9) if not case["gaps"] else e8(rng, 0, 9), .2)
    t["int"] = rows(lambda: float(rng.choice([-1, 0, 1, 1, 2])), .2)
    t["level"] = rows(lambda: e8(rng, 0, 9))
    t["area"] = rows(lambda: e8(rng, 0, 9))
    idx = rows(lambda: rng.randrange(0, 4))
    return [t[k] for k in TABS], idx


def func(f):
    n = f["fn"]
    if n == "range":
        return spread
    if n == "percentile":
        return {"func": n, "args": [f["p"]]} if f["kind"] == "args" else {"func": n, "kwargs": {"q": f["p"]}}
    if n == "percentileofscore":
        return {"func": n, "kwargs": {"score": f["p"] / 8, "kind": f["kind"]}}
    return n


def options(d):
    """keywords shared by both ways to define a recorder"""
    k, kw = d["kind"], {}
    if not (k in SILENT and k != "index"):
        kw["agg_func"] = func(d["af"])
    if d["ign"] and k not in ("rollmean",):
        kw["ignore_nan"] = True
    if k in EXACT + LOOSE + CURVES + ("profile", "rollwin"):
        kw["temporal_agg_func"] = func(d["tf"])
    if k in CURVES and d["i"] % 2 and d["i"] != 5:
        kw["fdc_agg_func" if k != "sdc" else "sdc_agg_func"] = kw.pop("temporal_agg_func")
    if k in ("flow", "fdc", "sfdc", "fdev", "totflow", "meanflow", "totpar", "meanpar") and d["fac"] != 2:
        kw["factor"] = d["fac"] / 2
    if k == "prop":
        kw["proportional"] = True
    if k in ("hydro", "energy"):
        if d["thr"] != NAN:
            kw["turbine_elevation"] = d["thr"] / 1000
        kw["efficiency"] = [.5, .25][d["i"] % 2]
        kw["flow_unit_conversion"] = d["fac"] / 2 / kw["efficiency"]
        kw["energy_unit_conversion"] = 1e-3
        if d["i"] == 3:
            kw["density"], kw["energy_unit_conversion"] = 500, 2e-3
    if d["integ"]:
        kw["integrate"] = True
    if k in CURVES:
        kw["percentiles"] = d["ps"]
    if k == "sfdc":
        kw["months"] = d["months"]
    if k == "minthr":
        kw["threshold"] = d["thr"] / 1000
    if k == "count":
        kw["threshold"] = d["thr"] // 1000
    for f, key in (("lb", "constraint_lower_bounds"), ("ub", "constraint_upper_bounds")):
        if d[f] != NAN:
            kw[key] = d[f] / 1000
    return kw


def targets(d, f):
    rows = [[x / 1000 for x in r] for r in d[f]]
    return [r[0] for r in rows] if len(rows[0]) == 1 and d["i"] != 2 else rows


def api(m, case, d, i, N, ps, xp, recs):
    k, kw = d["kind"], options(d)
    kw["name"] = "r%d" % i
    node = N[NODES[d["i"] - 1]] if d["i"] <= 5 else None
    cls = CLS[k]
    if k in ("vol", "prop", "norm", "sdc", "minvol", "minthr"):
        st = N[STORES[d["i"] - 1]]
        if k == "norm":
            kw["parameter"] = ps[d["j"] - 1]
        return cls(m, st, **kw)
    if k in ("level", "area"):
        return cls(m, N["st"], **kw)
    if k in ("param", "profile", "totpar", "meanpar"):
        return cls(m, ps[d["i"] - 1], **kw)
    if k == "rollwin":
        return cls(m, ps[d["i"] - 1], d["win"], **kw)
    if k == "rollmean":
        by = {"days": d["win"] * case["step"] + d["src"][0] * (case["step"] - 1)} if isinstance(case["step"], int) and d["i"] % 2 else {"timesteps": d["win"]}
        return cls(m, node, name=kw["name"], **by)
    if k in ("index", "count"):
        return cls(m, xp, **kw)
    if k == "fdev":
        if d["j"]:
            kw["scenario"] = m.scenarios["s%d" % (d["j"] - 1)]
        for f, key in (("lo", "lower_target_fdc"), ("hi", "upper_target_fdc")):
            if d[f]:
                kw[key] = targets(d, f)
    if k in ("hydro", "energy") and d["j"]:
        kw["water_elevation_parameter"] = ps[d["j"] - 1]
    if k in FITS:
        kw["observed"] = observed(case, d)
    if k == "aggrec":
        kw["recorder_agg_func"] = func(d["tf"])
        return cls(m, [recs[j - 1] for j in d["src"]], **kw)
    return cls(m, node, **kw)


def observed(case, d):
    rows = np.array(d["lo"]) / 1000
    a = pd.Timestamp(case["start"])
    idx = pd.date_range(a, periods=case["n"] * case["step"], freq="D")
    frame = pd.DataFrame(np.repeat(rows, case["step"], axis=0), index=idx)
    # more than the model's timesteps may have been observed
    if d["i"] % 2:
        after = pd.DataFrame(np.ones((case["step"], rows.shape[1])), index=pd.date_range(idx[-1] + pd.Timedelta(days=1), periods=case["step"], freq="D"))
        frame = pd.concat([frame, after])
        frame.index.freq = "D"
    if rows.shape[1] == 1 and d["i"] != 3:
        return frame[0]
    return frame


def doc(case, d, i):
    """the JSON form, or None where there is none"""
    k, kw = d["kind"], options(d)
    if k in FITS or "range" in (d["tf"]["fn"], d["af"]["fn"]):
        return None
    e = dict(kw, type=CLS[k].__name__.lower() if i % 2 else CLS[k].__name__.lower()[:-8])
    p = lambda j: "p%d" % (j - 1)
    if k in ("vol", "prop", "norm", "sdc", "minvol", "minthr"):
        e["node"] = STORES[d["i"] - 1]
        if k == "norm":
            e["parameter"] = p(d["j"])
    elif k in ("level", "area"):
        e["node"] = "st"
    elif k in ("param", "profile", "totpar", "meanpar", "rollwin"):
        e["parameter"] = p(d["i"])
        if k == "rollwin":
            e["window"] = d["win"]
    elif k in ("index", "count"):
        e["parameter"] = "px"
    elif k == "aggrec":
        e["recorders"] = ["r%d" % (j - 1) for j in d["src"]]
        e["recorder_agg_func"] = func(d["tf"])
    else:
        e["node"] = NODES[d["i"] - 1]
    if k == "rollmean":
        e.pop("agg_func", None)
        e["timesteps"] = d["win"]
    if k == "fdev":
        if d["j"]:
            e["scenario"] = "s%d" % (d["j"] - 1)
        for f, key in (("lo", "lower_target_fdc"), ("hi", "upper_target_fdc")):
            if d[f]:
                e[key] = targets(d, f)
    if k in ("hydro", "energy") and d["j"]:
        e["water_elevation_parameter"] = p(d["j"])
    return e


def build(case, width):
    ds = case["runs"][0]["recs"]
    tabs, idx = tables(case, width)
    ls = starts(case)
    end = ls[-1][1].isoformat()
    cap, init = float(case["cap"]), float(case["initial"])
    steps = [1.0, 1.5]
    if case["json"]:
        rng = random.Random(case["seed"])
        docs = [doc(case, d, i) for i, d in enumerate(ds)]
        for i, d in enumerate(ds):
            if d["kind"] == "aggrec" and any(docs[j - 1] is None for j in d["src"]):
                docs[i] = None
        pars = [("p%d" % i, {"type": "tab", "rows": t}) for i, t in enumerate(tabs)] + [("px", {"type": "xtab", "rows": idx})]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p0"}, {"name": "b", "type": "Output", "max_flow": "p1", "cost": "p4"}, {"name": "a2", "type": "Input", "max_flow": "p2"},
                 {"name": "b2", "type": "Output", "cost": -5},
                 {"name": "st", "type": "Storage", "max_volume": cap, "initial_volume": init, "cost": -1, "level": "p9", "area": "p10"},
                 {"name": "st2", "type": "Storage", "max_volume": cap, "initial_volume": cap / 2, "cost": -2},
                 {"name": "vs", "type": "VirtualStorage", "nodes": ["b"], "factors": [1.0], "max_volume": 2 * cap, "initial_volume": 2 * cap},
                 {"name": "ag", "type": "AggregatedStorage", "storage_nodes": ["st", "st2"]}, {"name": "g", "type": "AggregatedNode", "nodes": ["a", "a2"]},
                 {"name": "c", "type": "Link", "max_flow": "p3", "cost": "p5"} if case["link"] else {"name": "c", "type": "PiecewiseLink", "nsteps": 2, "max_flows": steps, "costs": [-4, -3]}]
        rng.shuffle(nodes)
        recs_ = [("r%d" % i, e) for i, e in enumerate(docs) if e is not None]
        rng.shuffle(recs_)
        doc_ = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": case["start"], "end": end, "timestep": case["step"]},
                "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])],
                "nodes": nodes, "edges": [["a", "st"], ["st", "b"], ["a2", "st2"], ["st2", "b2"], ["a2", "c"], ["c", "b2"]], "parameters": dict(pars), "recorders": dict(recs_)}
        if case["combos"] is not None:
            doc_["scenario_combinations"] = case["combos"]
        m = Model.load(doc_, solver=case["solver"])
        N = {k: m.nodes[k] for k in ("a", "b", "a2", "b2", "st", "st2", "vs", "ag", "g", "c")}
        ps, xp = [m.parameters["p%d" % i] for i in range(len(tabs))], m.parameters["px"]
        recs = []
        for i, d in enumerate(ds):
            recs.append(m.recorders["r%d" % i] if docs[i] is not None else api(m, case, d, i, N, ps, xp, recs))
        return m, N, ps, xp, recs, tabs, idx
    m = Model(start=case["start"], end=end, timestep=case["step"], solver=case["solver"])
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    ps = [Tab(m, t, name="p%d" % i) for i, t in enumerate(tabs)]
    xp = XTab(m, idx, name="px")
    N = {"a": Input(m, "a", max_flow=ps[0]), "b": Output(m, "b", max_flow=ps[1], cost=ps[4]), "a2": Input(m, "a2", max_flow=ps[2]), "b2": Output(m, "b2", cost=-5),
         "st": Storage(m, "st", max_volume=cap, initial_volume=init, cost=-1, level=ps[9], area=ps[10]), "st2": Storage(m, "st2", max_volume=cap, initial_volume=cap / 2, cost=-2)}
    N["c"] = Link(m, "c", max_flow=ps[3], cost=ps[5]) if case["link"] else PiecewiseLink(m, name="c", nsteps=2, max_flows=steps, costs=[-4, -3])
    N["vs"] = VirtualStorage(m, "vs", [N["b"]], factors=[1.0], max_volume=2 * cap, initial_volume=2 * cap)
    N["ag"] = AggregatedStorage(m, "ag", [N["st"], N["st2"]])
    N["g"] = AggregatedNode(m, "g", [N["a"], N["a2"]])
    for x, y in (("a", "st"), ("st", "b"), ("a2", "st2"), ("st2", "b2"), ("a2", "c"), ("c", "b2")):
        N[x].connect(N[y])
    recs = []
    for i, d in enumerate(ds):
        recs.append(api(m, case, d, i, N, ps, xp, recs))
    return m, N, ps, xp, recs, tabs, idx


def qn(x):
    """scaled, but not losing that a number is not zero"""
    r = q(x)
    return r if r or x != x or abs(x) < 1e-9 else int(np.sign(x))


def mat(a):
    return [[qn(x) for x in r] for r in np.asarray(a, dtype=np.float64)]


def held(d, rec, edge):
    x = {"data": [], "fdc": [], "vals": [], "agg": 0, "viol": -1, "edge": False, "rows": [], "cols": []}
    k = d["kind"]
    if k in EXACT + LOOSE + CURVES + ("profile", "rollwin", "index"):
        f = rec.to_dataframe()
        x["data"] = mat(f.values)
        if k not in SILENT and k not in CURVES:
            assert np.array_equal(f.values, rec.data, equal_nan=True)
        x["rows"] = [int(i) for i in f.index] if k in CURVES + ("profile",) else [i.start_time.toordinal() for i in f.index]
        x["cols"] = [[int(v) + 1 for v in (c if isinstance(c, tuple) else (c,))] for c in f.columns]
    elif k == "rollmean":
        x["data"] = mat(np.where(np.abs(rec.data) < 1e6, rec.data, 0.0))
    if k == "fdev":
        x["fdc"] = mat(rec.fdc)
        dev, fdc = rec.to_dataframe(return_fdc=True)
        assert np.array_equal(fdc.values, rec.fdc) and np.array_equal(dev.values, rec.fdc_deviations, equal_nan=True)
    if k not in SILENT:
        v = rec.aggregated_value()
        if edge and v == v and d["lb"] == NAN and d["ub"] == NAN:
            if edge != 1:
                rec.constraint_lower_bounds = v
                d["lb"] = q(v)
            if edge != 2:
                rec.constraint_upper_bounds = v if edge != 4 else v + 1.0
                d["ub"] = q(v if edge != 4 else v + 1.0)
            x["edge"] = True
        x["vals"] = [qn(i) for i in rec.values()]
        x["agg"] = qn(v)
        try:
            x["viol"] = int(rec.is_constraint_violated())
        except ValueError:
            x["viol"] = -1
    x["flags"] = [bool(i) for i in (rec.is_equality_constraint, rec.is_double_bounded_constraint, rec.is_lower_bounded_constraint, rec.is_upper_bounded_constraint, rec.is_constraint)]
    return x


def play(case):
    warnings.simplefilter("ignore")
    mem = members_(case)
    width = len(mem)
    m, N, ps, xp, recs, tabs, idx = build(case, width)
    ls = starts(case)
    w = range(width)
    ev = []
    last = case["runs"][0]["recs"]
    for r in case["runs"]:
        now = [dict(d) for d in r["recs"]]
        for rec, x, y in zip(recs, last, now):
            if x["af"] != y["af"]:
                rec.agg_func = func(y["af"])
        last = now
        prepare(m, case.get("always"))
        at = r["restart"] or 0
        if at:
            m.reset(start=m.timestepper.datetime_index[at].start_time)
        else:
            m.reset()
        ev.append({"k": "run", "at": at})
        for i in range(at, case["n"]):
            m.step()
            fl = [N[n].flow for n in NODES]
            t = [[q(x) for x in tab[i]] for tab in tabs]
            cm = t[3] if case["link"] else [2500] * width
            ev.append({"k": "step", "o": ls[i][0].toordinal(), "days": ls[i][2], "fl": [[q(x) for x in f] for f in fl], "mx": [t[0], t[1], t[2], cm, [0] * width],
                       "co": [[0] * width, t[4], [0] * width, t[5] if case["link"] else [0] * width, [0] * width], "vol": [[q(x) for x in N[s].volume] for s in STORES],
                       "pc": [[q(x, 1000000) for x in N[s].current_pc] for s in STORES], "lev": t[9], "area": t[10], "par": t, "idx": idx[i]})
        m.finish()
        end = {"k": "end", "months": months(case), "starts": [x[1].toordinal() for x in ls], "rs": [held(d, rec, r["edge"]) for d, rec in zip(now, recs)]}
        end["recs"] = now
        ev.append(end)
    return {"ev": ev, "members": [[i + 1 for i in x] for x in mem]}


def run(chk):
    chk.model_check("MCRecord", None if chk.quick else "MCRecordFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(400, 8000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceRecord", cases, traces, what="records", chunks=8)
    kinds, fns = {}, {}
    for c in cases:
        for d in c["runs"][0]["recs"]:
            kinds[d["kind"]] = kinds.get(d["kind"], 0) + 1
            for f in (d["tf"]["fn"], d["af"]["fn"]):
                fns[f] = fns.get(f, 0) + 1
    chk.extra["recorders"] = dict(sorted(kinds.items()))
    chk.extra["functions"] = dict(sorted(fns.items()))
    for c in cases[:3]:
        chk.sample({"recorders": [d["kind"] for d in c["runs"][0]["recs"]], "step": c["step"], "sizes": c["sizes"], "json": c["json"], "runs": len(c["runs"])})
