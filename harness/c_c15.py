"""C15: calendar profiles against Profiles.tla"""
import calendar, datetime, math
import numpy as np
import pandas as pd
from scipy.interpolate import Rbf
from common import q, SOLVERS, prepare, period
from pywr.core import Model, Input, Output, Scenario
import pywr.parameters as P
from pywr.parameters import load_parameter
from pywr.parameters.parameters import ScaledProfileParameter

SIZE = {"daily": 366, "weekly": 52, "monthly": 12, "first": 12, "last": 12}
SCEN = {"daily": P.ScenarioDailyProfileParameter, "weekly": P.ScenarioWeeklyProfileParameter, "monthly": P.ScenarioMonthlyProfileParameter}


def vals(rng, n):
    if rng.random() < .15:
        return [rng.randrange(-2, 9) for _ in range(n)]      # whole numbers
    if rng.random() < .3:
        return [rng.randrange(-2000, 9000) / 1000 for _ in range(n)]
    a = rng.randrange(3, 40)
    return [(a * i * 37 % 4001) / 1000 for i in range(n)]


def near(rng, y):
    """a date, often close to the turn of the year or the end of February"""
    c = rng.random()
    if c < .3:
        return datetime.date(y, 12, 31) + datetime.timedelta(rng.randrange(-9, 9))
    if c < .6:
        return datetime.date(y, 2, 28) + datetime.timedelta(rng.randrange(-9, 9))
    return datetime.date(y, 1, 1) + datetime.timedelta(rng.randrange(365))


def span(rng, step):
    y = rng.choice([1899, 1900, 1903, 1904, 1999, 2000, 2001, 2015, 2016, 2019, 2020, 2023, 2096, 2100])
    a = near(rng, y)
    n = rng.randrange(2, 40)
    days = step if isinstance(step, int) else {"W": 7, "M": 30, "7D": 7}[step]
    return a.isoformat(), (a + datetime.timedelta(n * days)).isoformat()


def data_for(rng, p):
    k = p["k"]
    rows = p.get("rows", 1)
    if k in SIZE:
        return [vals(rng, SIZE[k]) for _ in range(rows)]
    if k == "doy":
        n = len(p["amp"])
        return [rng.randrange(1, 50) / 10] + [rng.randrange(0, 30) / 10 for _ in range(n)] + [rng.randrange(0, 62) / 10 for _ in range(n)]
    if k == "day365":
        return [rng.randrange(0, 90) / 10 for _ in p["days"]]
    return None


def gen(rng):
    step = rng.choice([1, 1, 1, 2, 3, 5, 7, 11, 30, 31, 100, 365, 366, "7D", "W", "M"])
    sizes = [rng.randrange(1, 5) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = None
    if rng.random() < .4:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 5))]
    slices = None
    if combos is None and rng.random() < .4:
        slices = [sorted(rng.sample(range(s), 2)) if s > 1 else [0, 1] for s in sizes]
        slices = [[a, b if b > a else a + 1] for a, b in slices]
    ps = []
    for _ in range(rng.randrange(2, 6)):
        k = rng.choice(["daily", "weekly", "monthly", "first", "last", "drawdown", "drawdown", "daily", "scaled", "doy", "day365", "sdaily", "sweekly", "smonthly"])
        p = {"k": k, "scen": 0, "load": rng.random() < .5}
        if k == "scaled":
            base = [i for i, x in enumerate(ps) if x["k"] in ("daily", "weekly", "monthly", "first", "last") and not x["scen"]]
            if not base:
                continue
            p["of"], p["scale"] = rng.choice(base), rng.choice([50, 200, 100, -100, 25])
        elif k[0] == "s":
            p["k"] = k[1:]
            p["scen"] = rng.randrange(1, len(sizes) + 1)
            p["rows"] = sizes[p["scen"] - 1]
        elif k == "drawdown":
            d = near(rng, 2016)
            p["m"], p["d"], p["res"] = d.month, d.day, rng.choice([0, 0, 10, 100, 365])
        elif k == "weekly":
            p["53"] = rng.random() < .3
        elif k == "doy":
            p["amp"] = [0] * rng.randrange(1, 4)
        elif k == "day365":
            p["days"] = [1] + sorted(rng.sample(range(5, 362, 6), rng.randrange(2, 6)))
            p["min"], p["max"] = rng.choice([[None, None], [2.0, None], [None, 6.0], [1.0, 5.0]])
            p["fn"] = rng.choice([None, "linear", "gaussian"])
        ps.append(p)
    runs = []
    for r in range(rng.choice([1, 2, 2])):
        a, b = span(rng, step)
        runs.append({"start": a, "end": b, "restart": rng.randrange(1, 4) if rng.random() < .3 else None})
        if len(runs) > 1 and rng.random() < .35:
            runs[-1].update({k: runs[-2][k] for k in ("start", "end")})
    data = [[data_for(rng, p) for p in ps]]
    for r in runs[1:]:
        # optimisation replaces the values of some
        data.append([data_for(rng, p) if p["k"] in ("monthly", "first", "last", "doy", "day365") and not p["scen"] and rng.random() < .6 else d for p, d in zip(ps, data[-1])])
    return {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "ps": ps, "runs": runs, "data": data, "solver": rng.choice(SOLVERS)}


def members(case):
    full = [[]]
    for i, s in enumerate(case["sizes"]):
        r = range(s) if case["slices"] is None else range(*case["slices"][i])
        full = [x + [j] for x in full for j in r]
    return case["combos"] if case["combos"] is not None else full


def build(case):
    r = case["runs"][0]
    m = Model(start=r["start"], end=r["end"], timestep=case["step"], solver=case["solver"])
    sc = [Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None) for i, s in enumerate(case["sizes"])]
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    a, b = Input(m, "a", max_flow=1.0), Output(m, "b")
    a.connect(b)
    out = []
    for i, (p, d) in enumerate(zip(case["ps"], case["data"][0])):
        n, k = "p%d" % i, p["k"]
        if k == "scaled":
            o = load_parameter(m, {"type": "scaledprofile", "name": n, "scale": p["scale"] / 100, "profile": "p%d" % p["of"]}) if p["load"] else \
                ScaledProfileParameter(m, p["scale"] / 100, out[p["of"]], name=n)
        elif p["scen"]:
            o = load_parameter(m, {"type": "scenario%sprofile" % k, "name": n, "scenario": "s%d" % (p["scen"] - 1), "values": d}) if p["load"] else \
                SCEN[k](m, sc[p["scen"] - 1], np.array(d), name=n)
        elif k == "drawdown":
            kw = {"reset_day": p["d"], "reset_month": p["m"], "residual_days": p["res"]}
            o = load_parameter(m, dict(kw, type="uniformdrawdownprofile", name=n)) if p["load"] else P.UniformDrawdownProfileParameter(m, name=n, **kw)
        elif k == "doy":
            h = len(p["amp"])
            kw = {"mean": d[0], "amplitudes": d[1:h + 1], "phases": d[h + 1:]}
            o = load_parameter(m, dict(kw, type="annualharmonicseries", name=n)) if p["load"] else P.AnnualHarmonicSeriesParameter(m, name=n, **kw)
        elif k == "day365":
            kw = {"days_of_year": p["days"], "values": d}
            if p["min"] is not None:
                kw["min_value"] = p["min"]
            if p["max"] is not None:
                kw["max_value"] = p["max"]
            if p["fn"]:
                kw["rbf_kwargs"] = {"function": p["fn"]}
            o = load_parameter(m, dict(kw, type="rbfprofile", name=n)) if p["load"] else P.RbfProfileParameter(m, name=n, **kw)
        else:
            v = list(d[0]) + ([5.0] if p.get("53") else [])
            kw = {"interp_day": k} if k in ("first", "last") else {}
            t = {"daily": "daily", "weekly": "weekly"}.get(k, "monthly")
            o = load_parameter(m, dict(kw, type=t + "profile", name=n, values=v)) if p["load"] else \
                {"daily": P.DailyProfileParameter, "weekly": P.WeeklyProfileParameter, "monthly": P.MonthlyProfileParameter}[t](m, v, name=n, **kw)
        out.append(o)
    return m, sc, out


def table(p, d):
    """the values (thousandths) the specification looks up"""
    if p["k"] in SIZE:
        return [[q(x) for x in row] for row in d]
    if p["k"] == "doy":
        h = len(p["amp"])
        return [[q(d[0] + sum(d[1 + i] * math.cos(2 * math.pi * (i + 1) * t / 365 + d[1 + h + i]) for i in range(h))) for t in range(366)]]
    if p["k"] == "day365":
        x, y = p["days"], d
        f = Rbf([x[-1] - 365] + x + [366, 365 + x[1]], [y[-1]] + y + [y[0], y[1]], **({"function": p["fn"]} if p["fn"] else {}))
        v = np.clip(f(np.arange(1, 366)), -np.inf if p["min"] is None else p["min"], np.inf if p["max"] is None else p["max"])
        return [[q(a) for a in v]]
    return [[0]]


def wrong(m, sc, rng):
    """sizes that do not match are refused"""
    bad = [("monthly", 11), ("monthly", 13), ("weekly", 51), ("weekly", 54), ("daily", 365), ("daily", 367), ("smonthly", 11), ("sdaily", 365), ("rows", 12)]
    k, n = rng.choice(bad)
    try:
        if k == "rows":
            SCEN["monthly"](m, sc, np.ones((sc.size + 1, 12)))
        elif k[0] == "s":
            SCEN[k[1:]](m, sc, np.ones((sc.size, n)))
        else:
            {"monthly": P.MonthlyProfileParameter, "weekly": P.WeeklyProfileParameter, "daily": P.DailyProfileParameter}[k](m, [1.0] * n)
    except ValueError:
        return True
    return False


def play(case):
    import random
    m, sc, ps = build(case)
    ev = []
    if case.get("wrong", True):
        m2, sc2, _ = build(case)
        ev.append({"k": "wrongsize", "refused": wrong(m2, sc2[0], random.Random(str(case["runs"])))})
    for k, r in enumerate(case["runs"]):
        if k:
            period(m, r["start"], r["end"])
            for p, o, d, old in zip(case["ps"], ps, case["data"][k], case["data"][k - 1]):
                if d != old:
                    o.set_double_variables(np.array(d[0] if p["k"] in SIZE else d, dtype=float))
        prepare(m, case.get("always"))
        n = len(m.timestepper)
        at = 0 if r["restart"] is None else min(r["restart"], n - 1)
        if at:
            m.reset(start=m.timestepper.datetime_index[at].start_time)
        else:
            m.reset()
        for i in range(at, n):
            m.step()
            ts = m.timestepper.current
            ev.append({"k": "step", "run": k + 1, "o": datetime.date(ts.year, ts.month, ts.day).toordinal(),
                       "v": [[q(x, 10000 if p["k"] == "drawdown" else 1000) for x in o.get_all_values()] for p, o in zip(case["ps"], ps)]})
        for i, (p, o) in enumerate(zip(case["ps"], ps)):
            if p["k"] in ("monthly", "first", "last") and not p["scen"]:
                ev.append({"k": "list", "run": k + 1, "p": i + 1, "v": [q(x) for x in o.get_daily_values()]})
    spec = [{"k": p["k"], "scen": p["scen"], "m": p.get("m", 1), "d": p.get("d", 1), "res": p.get("res", 0), "of": p.get("of", 0) + 1, "scale": p.get("scale", 100)} for p in case["ps"]]
    return {"ev": ev, "ps": spec, "d": [[table(p, d) for p, d in zip(case["ps"], run)] for run in case["data"]], "members": [[i + 1 for i in x] for x in members(case)]}


def run(chk):
    chk.model_check("MCProfiles", None if chk.quick else "MCProfilesFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(600, 12000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceProfiles", cases, traces, what="profiles", chunks=6)
    for c in cases[:3]:
        chk.sample({"profiles": [p["k"] for p in c["ps"]], "runs": c["runs"], "step": c["step"], "sizes": c["sizes"]})
