"""C09 (annual, seasonal, monthly) and C10 (rolling): runs of virtual storages in separate small networks whose demand is known, so that
the storage is the only thing that can restrict the flow; several runs of the same model with other dates, lengths and restarts."""
import datetime
import numpy as np, pandas as pd
from common import q
from pywr.core import Model, Input, Link, Output, Scenario, Storage
from pywr.nodes import AnnualVirtualStorage, SeasonalVirtualStorage, MonthlyVirtualStorage, RollingVirtualStorage
import pywr.parameters as P


class Demand(P.Parameter):
    """demand by timestep and scenario; the first in the model also notes what the storages plan with"""
    def __init__(self, model, seed, hi, S):
        super().__init__(model)
        self.v = np.random.RandomState(seed).choice([0.0, 0.25, 0.5, 1.0], size=(97, S)) * hi

    def value(self, ts, si):
        return self.v[ts.index % 97, si.global_id]


class Plan(P.Parameter):
    def __init__(self, model):
        super().__init__(model)
        self.stores, self.seen = [], {}

    def value(self, ts, si):
        self.seen[si.global_id] = [(float(v.volume[si.global_id]), bool(v.active)) for v in self.stores]
        return 0.0


def day(rng):
    if rng.random() < .06:
        return 2, 29
    m = rng.randrange(1, 13)
    return m, rng.choice([1, 1, rng.randrange(1, 29), [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]])


def near_day(rng, d0):
    d = d0 + datetime.timedelta(days=rng.randrange(-3, 12))
    return (d.month, d.day) if (d.month, d.day) != (2, 29) else (3, 1)


def gen_run(rng, rolling):
    d0 = datetime.date(rng.choice([2015, 2016, 2019, 2020]), rng.randrange(1, 13), rng.choice([1, 1, rng.randrange(1, 29), 28]))
    if rng.random() < .3:
        d0 = datetime.date(rng.choice([2015, 2016, 2020]), rng.choice([2, 12]), rng.choice([26, 27, 28]))
    step = rng.choice([1, 1, 2, 5, 7, 10]) if rolling else rng.choice([1, 3, 7, 10, 15, 30, 31, 61, 90, 200, 365, 370, 450, "M", "W", "7D", "Q"])
    n = rng.randrange(8, 30) if rolling else {"M": 16, "W": 60, "7D": 60, "Q": 9}.get(step) or max(5, min(60, 800 // step))
    if step == 1 and not rolling:
        n = 110
    days = n * (step if isinstance(step, int) else {"M": 30, "W": 7, "7D": 7, "Q": 91}[step])
    return {"start": d0.isoformat(), "end": (d0 + datetime.timedelta(days=days - 1)).isoformat(), "step": step, "restart": None}


def gen(rng, rolling):
    runs = [gen_run(rng, rolling)]
    S = rng.choice([1, 1, 2, 3])
    if rng.random() < .55:
        if rng.random() < .4:
            r = gen_run(rng, rolling)
            if rolling:
                r["step"] = runs[0]["step"]
        else:
            r = dict(runs[0])
        if rng.random() < .5:
            r["restart"] = rng.randrange(1, 6)
        runs.append(r)
    alldays = rolling and rng.random() < .3
    vs = []
    d0 = datetime.date.fromisoformat(runs[0]["start"])
    for _ in range(rng.choice([1, 2, 3])):
        kind = "rolling" if rolling else rng.choice(["annual", "annual", "seasonal", "seasonal", "monthly"])
        mem = rng.choice([1, 1, 2, 3])
        rm, rd = day(rng) if rng.random() < .6 else near_day(rng, d0)
        if (rm, rd) == (2, 29) and any(r["start"][5:7] in ("02", "03") for r in runs):
            rd = 28
        em, ed = day(rng) if rng.random() < .6 else near_day(rng, d0 + datetime.timedelta(days=rng.choice([5, 60])))
        if (em, ed) == (rm, rd):
            ed = 1 if rd != 1 else 2
        months = rng.choice([1, 1, 2, 3, 6, 12])
        v = {"kind": kind, "rd": rd, "rm": rm, "ed": ed, "em": em, "months": months, "im": rng.choice([0, 0, rng.randrange(months + 1)]),
             "toinit": rng.random() < .35 and not rolling, "n": rng.choice([2, 2, 3, 4, 5, 8, 12]), "f": [rng.choice([1.0, 1.0, 0.5, 2.0]) for _ in range(mem)],
             "hi": [rng.choice([2.0, 4.0, 8.0]) for _ in range(mem)], "member": [rng.choice(["in", "link", "out"]) for _ in range(mem)],
             "seeds": [rng.randrange(10 ** 6) for _ in range(mem)], "d": 0}
        if rolling and (alldays or rng.random() < .3):
            # a window in days is as many whole timesteps of the run at hand
            v["d"] = v["n"] * runs[0]["step"] + rng.randrange(runs[0]["step"])
        # a size of the order of what is used between replenishments
        step = runs[0]["step"] if isinstance(runs[0]["step"], int) else {"M": 30, "W": 7, "7D": 7, "Q": 91}[runs[0]["step"]]
        rate = sum(f * h for f, h in zip(v["f"], v["hi"])) * 0.44 * step
        k = v["n"] if rolling else max(1, {"annual": 365, "seasonal": 150, "monthly": 30 * months}[kind] // step)
        mx = round(rate * k * rng.choice([0.2, 0.6, 0.6, 1.0, 1.5]) + 0.1, 1)
        scen = not rolling and S > 1 and rng.random() < .3
        v["max"] = [round(mx * rng.uniform(.7, 1.3), 1) if scen else mx for _ in range(S)]
        v["rep"] = "scen" if scen else rng.choice(["num", "num", "const"])
        v["min"] = rng.choice([0.0, 0.0, round(mx * .1, 1)])
        lo = min(v["max"])
        pc = rng.choice([1.0, 1.0, round(rng.uniform(0.2, 1.0), 2)])
        if rolling and rng.random() < .06:
            pc = v["min"] = 0.0
            v["rep"] = "num"
        v["init"] = round(pc * lo, 3)
        v["initpc"] = v["init"] / lo
        v["how"] = "both" if v["rep"] == "scen" else rng.choice(["v", "pc"]) if v["rep"] == "num" else "both"
        vs.append(v)
    if alldays and rng.random() < .7:
        r = gen_run(rng, True)
        r["step"] = rng.choice([k for k in (1, 2, 5, 7, 10) if k * 2 <= min(v["d"] for v in vs)])
        runs[1:] = [r]
    return {"runs": runs, "S": S, "vs": vs, "solver": rng.choice(["glpk", "glpk-edge", "lpsolve"])}


def build(case):
    r = case["runs"][0]
    m = Model(start=r["start"], end=r["end"], timestep=r["step"], solver=case["solver"])
    sc = Scenario(m, "s", size=case["S"])
    plan = Plan(m)
    out = []
    for i, v in enumerate(case["vs"]):
        ms, dem = [], []
        for j, (h, k, sd) in enumerate(zip(v["hi"], v["member"], v["seeds"])):
            d = Demand(m, sd, h, case["S"])
            a, b, o = Input(m, "i%d%d" % (i, j)), Link(m, "l%d%d" % (i, j)), Output(m, "o%d%d" % (i, j), max_flow=d, cost=-10.0 - j)
            a.connect(b)
            b.connect(o)
            ms.append({"in": a, "link": b, "out": o}[k])
            dem.append(d)
        kw = {"nodes": ms, "factors": v["f"], "min_volume": v["min"]}
        kw["max_volume"] = v["max"][0] if v["rep"] == "num" else P.ConstantParameter(m, v["max"][0]) if v["rep"] == "const" else P.ConstantScenarioParameter(m, sc, v["max"])
        if v["how"] in ("v", "both"):
            kw["initial_volume"] = v["init"]
        if v["how"] in ("pc", "both"):
            kw["initial_volume_pc"] = v["initpc"]
        if v["kind"] == "rolling":
            if v["d"]:
                kw["days"] = v["d"]
            else:
                kw["timesteps"] = v["n"]
            s = RollingVirtualStorage(m, "v%d" % i, **kw)
        elif v["kind"] == "monthly":
            s = MonthlyVirtualStorage(m, "v%d" % i, months=v["months"], initial_months=v["im"], reset_to_initial_volume=v["toinit"], **kw)
        else:
            kw.update(reset_day=v["rd"], reset_month=v["rm"], reset_to_initial_volume=v["toinit"])
            s = AnnualVirtualStorage(m, "v%d" % i, **kw) if v["kind"] == "annual" else SeasonalVirtualStorage(m, "v%d" % i, end_day=v["ed"], end_month=v["em"], **kw)
        plan.stores.append(s)
        out.append((s, ms, dem))
    return m, plan, out


def play(case):
    m, plan, vs = build(case)
    S = case["S"]
    ev = []
    for k, r in enumerate(case["runs"]):
        if k:
            t = m.timestepper
            if str(t.start)[:10] != r["start"] or str(t.end)[:10] != r["end"]:
                t.start, t.end = r["start"], r["end"]
            if r["step"] != case["runs"][0]["step"]:
                t.delta = r["step"]
        if not k or m.dirty or m.timestepper.dirty:
            m.setup()
        if r["restart"] is None:
            m.reset()
        else:
            m.reset(start=m.timestepper.datetime_index[min(r["restart"], len(m.timestepper) - 1)].start_time)
        step = r["step"]
        ev.append({"k": "reset", "n": [v["d"] // step if v["d"] else v["n"] for v in case["vs"]], "vol": [[q(x) for x in s.volume] for s, _, _ in vs]})
        n = len(m.timestepper) - (0 if r["restart"] is None else min(r["restart"], len(m.timestepper) - 1))
        for _ in range(n):
            plan.seen.clear()
            m.step()
            ts = m.timestepper.current
            date = datetime.date(ts.year, ts.month, ts.day).toordinal()
            for s in range(S):
                o = []
                for i, (v, ms, dem) in enumerate(vs):
                    pre, act = plan.seen[s][i]
                    x = [float(a.flow[s]) for a in ms]
                    o.append({"pre": q(pre), "act": act, "x": [q(a) for a in x], "dem": [q(d.get_all_values()[s]) for d in dem],
                              "use": q(sum(f * a for f, a in zip(case["vs"][i]["f"], x)) * ts.days), "vol": q(float(v.volume[s])),
                              "flow": q(float(v.flow[s])), "pc": q(float(v.current_pc[s]), 10000)})
                ev.append({"k": "step", "date": date, "days": int(ts.days), "s": s + 1, "o": o})
    V = [dict({x: v[x] for x in ("kind", "rd", "rm", "ed", "em", "months", "im", "toinit", "n")}, f=[q(f, 100) for f in v["f"]], max=[q(x) for x in v["max"]],
              min=q(v["min"]), init=q(v["init"]), maxparam=v["rep"] != "num", scen=v["rep"] == "scen") for v in case["vs"]]
    return {"ev": ev, "S": S, "vs": V}


def run(chk, rolling=False):
    if rolling:
        chk.model_check("MCRolling", None if chk.quick else "MCRollingFull")
    else:
        chk.model_check("MCVirtual", None if chk.quick else "MCVirtualFull")
    rng = chk.rng
    cases = [gen(rng, rolling) for _ in range(chk.n(250, 4000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceVirtual", cases, traces, what="rolling" if rolling else "periodic", chunks=6)
    for c in cases[:3]:
        chk.sample({"kinds": [v["kind"] for v in c["vs"]], "runs": c["runs"], "scenarios": c["S"]})
