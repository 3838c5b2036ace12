"""C16: time series, arrays and stored tables against Series.tla"""
import datetime, itertools, os
import numpy as np
import pandas as pd
import tables
from common import q, NAN, SOLVERS, prepare, period
from c_c15 import members, near
from pywr.core import Model, Input, Output, Scenario
import pywr.parameters as P
from pywr.parameters import load_parameter
from pywr.dataframe_tools import ResamplingError

SERIAL = itertools.count()
H0 = datetime.datetime(1, 1, 1)


def hours(t):
    return int((t.to_pydatetime().replace(tzinfo=None) - H0).total_seconds() // 3600)


def monday(d):
    return d - datetime.timedelta(d.weekday())


def gen_frame(rng, case):
    step = case["step"]
    cal = isinstance(step, str) and step in ("W", "M", "Q")
    n = 7 if step == "7D" else step
    if cal:
        f = {"W": ["12h", "D", "D", "7D", "W"], "M": ["12h", "D", "D", "7D", "M", "M"], "Q": ["D", "M", "Q", "7D"]}[step]
        f = rng.choice(f)
    else:
        f = rng.choice(["12h", "D", "D", "%dD" % n, "%dD" % n, "%dD" % (n * rng.choice([2, 3])), "W", "M", "M", "Q", "%dD" % rng.randrange(1, 9)])
    return {"k": "frame", "f": f, "before": rng.choice([0, 0, 1, 1, 2, 5]), "after": rng.choice([0, 0, 1, 3]), "late": 1 if rng.random() < .12 else 0,
            "early": rng.choice([1, 2, 10]) if rng.random() < .12 else 0, "nan": rng.random() if rng.random() < .12 and not cal else None,
            "as": rng.choice(["period", "datetime", "inline", "csv"]), "seed": rng.randrange(10 ** 6), "off": rng.choice([0, 0, 0, 1, -1, 3, -5]),
            "column": rng.random() < .3, "shift": rng.choice([0, 0, 0, 1]), "badcols": rng.random() < .06}


def gen(rng):
    step = rng.choice([1, 1, 1, 2, 3, 5, 7, 7, 10, 30, "7D", "W", "M", "M", "Q"])
    sizes = [rng.randrange(2, 5) for _ in range(rng.choice([1, 1, 2]))]
    combos, slices = None, None
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    c = rng.random()
    if c < .35:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 5))]
    elif c < .7:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None], [0, 1, None], [None, None, 2], [-1, None, None], [1, 99, None], [None, None, -1]]) for s in sizes]
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        a = near(rng, rng.choice([1999, 2000, 2015, 2016, 2020, 2023]))
        n = rng.randrange(1, 25)
        days = n * (step if isinstance(step, int) else {"W": 7, "7D": 7, "M": 30, "Q": 91}[step])
        runs.append({"start": a.isoformat(), "end": (a + datetime.timedelta(days)).isoformat(), "restart": rng.randrange(1, 5) if rng.random() < .3 else None})
        if len(runs) > 1 and rng.random() < .35:
            runs[-1].update({k: runs[-2][k] for k in ("start", "end")})
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "runs": runs, "solver": rng.choice(SOLVERS)}
    ps = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(["frame", "frame", "frame", "array", "sarray", "factors", "tables", "tables"])
        p = gen_frame(rng, case) if k == "frame" else {"k": k, "seed": rng.randrange(10 ** 6), "extra": rng.choice([0, 0, 1, 5, -1] if rng.random() < .3 else [0, 0, 1, 5]), "off": 0}
        p["scen"] = rng.choice([0] + list(range(1, len(sizes) + 1))) if k in ("frame", "tables") else 0 if k == "array" else rng.randrange(1, len(sizes) + 1)
        if k == "tables":
            p["off"] = rng.choice([0, 0, 1, 2, 7, -1, -3])
            p["int"] = rng.random() < .5
            p["xcols"] = rng.choice([0, 0, 0, 1, -1]) if p["scen"] else 0
        p["load"] = rng.random() < .5
        ps.append(p)
    case["ps"] = ps
    return case


def members_(case):
    full = [[]]
    for i, s in enumerate(case["sizes"]):
        r = list(range(s))
        if case["slices"] is not None:
            r = r[slice(*case["slices"][i])]
        full = [x + [j] for x in full for j in r]
    return case["combos"] if case["combos"] is not None else full


def make_index(p, case, rng):
    """the period index of a frame, placed relative to the first run"""
    f = p["f"]
    lo = min(pd.Timestamp(r["start"]) for r in case["runs"])
    hi = max(pd.Timestamp(r["end"]) for r in case["runs"])
    if p["f"] not in ("W", "M", "Q") and len({r["start"] for r in case["runs"]}) > 1 and (hi - lo).days > 3000:
        hi = lo + pd.Timedelta(days=3000)
    if case["step"] in ("M", "Q", "W"):
        lo = pd.Period(lo, case["step"]).start_time
        hi = pd.Period(hi, case["step"]).end_time
    elif not isinstance(case["step"], str) or case["step"] == "7D":
        n = 7 if case["step"] == "7D" else case["step"]
        hi = lo + pd.Timedelta(days=n * (((hi - lo).days // n) + 1)) - pd.Timedelta(days=1)
    if f in ("W", "M", "Q"):
        a, b = pd.Period(lo, f), pd.Period(hi, f)
        a = a - p["before"] + p["late"]
        b = b + p["after"] - p["early"]
        return pd.period_range(a, max(a, b), freq=f)
    u = pd.Timedelta(f if f != "D" else "1D")
    a = lo - p["before"] * u + p["late"] * u + (pd.Timedelta(days=1) if p["shift"] and u > pd.Timedelta(days=1) else pd.Timedelta(0))
    if case["step"] == "W":
        a = a.normalize()
    n = max(1, int(-(-(hi + pd.Timedelta(days=1) - a) // u)) + p["after"] - p["early"])
    return pd.period_range(a, periods=n, freq=f)


def frame_data(p, case):
    import random
    rng = random.Random(p["seed"])
    idx = make_index(p, case, rng)
    v = [float(rng.randrange(0, 9000)) / 1000 for _ in idx]
    if p["nan"] is not None and how(p, case) == "start":
        v[int(p["nan"] * len(v))] = float("nan")
    size = case["sizes"][p["scen"] - 1] if p["scen"] else 1
    cols = size + (1 if p["badcols"] and p["scen"] else 0)
    return idx, v, cols, size


def how(p, case):
    f, step = p["f"], case["step"]
    if step in ("W", "M", "Q"):
        return "start" if f == step else "finer"
    if f in ("W", "M", "Q"):
        return "days"
    n = 7 if step == "7D" else step
    u = 0.5 if f == "12h" else 1 if f == "D" else int(f[:-1])
    return "finer" if u < n else "start"


def make_frame(m, sc, p, case, name):
    idx, v, cols, _ = frame_data(p, case)
    df = pd.DataFrame({"c%d" % j: np.array(v) + 0.5 * j for j in range(cols)}, index=idx)
    kw = {"timestep_offset": p["off"]} if p["off"] else {}
    daily = p["f"] == "D" and len(idx) >= 3
    form = p["as"] if daily or p["as"] in ("period", "datetime") else "period"
    scen = sc[p["scen"] - 1] if p["scen"] else None
    if form in ("inline", "csv"):
        df.index = df.index.to_timestamp()
        kw = dict(kw, type="dataframe", name=name)
        if scen is not None:
            kw["scenario"] = scen.name
        elif p["column"]:
            df["other"] = -1.0
            kw["column"] = "c0"
        if form == "csv":
            df.index.name = "when"
            df.to_csv(name + ".csv")
            kw.update(url=os.path.abspath(name + ".csv"), index_col="when", parse_dates=True)
        else:
            df.index = [t.strftime("%Y-%m-%d") for t in df.index]
            kw.update(data={k: {t: (None if np.isnan(x) else x) for t, x in col.items()} for k, col in df.to_dict().items()}, parse_dates=True)
        return load_parameter(m, kw)
    if form == "datetime" and p["f"] in ("D", "12h", "M", "Q", "W"):
        stamp = df.index.to_timestamp(how="end" if p["f"] in ("W", "M", "Q") else "start").normalize() if p["f"] != "12h" else df.index.to_timestamp()
        df.index = pd.DatetimeIndex(stamp, freq={"M": "ME", "Q": "QE"}.get(p["f"], p["f"]))
    if scen is None and p["column"]:
        df = df["c0"]
    return P.DataFrameParameter(m, df, scenario=scen, name=name, **kw)


def make(m, sc, p, case, i, steps):
    name = "p%d" % i
    k = p["k"]
    if k == "frame":
        return make_frame(m, sc, p, case, name)
    v = values(p, case, steps)
    scen = sc[p["scen"] - 1] if p["scen"] else None
    if k == "array":
        return load_parameter(m, {"type": "arrayindexed", "name": name, "values": [x[0] for x in v]}) if p["load"] else P.ArrayIndexedParameter(m, [x[0] for x in v], name=name)
    if k == "sarray":
        return P.ArrayIndexedScenarioParameter(m, scen, v, name=name)
    if k == "factors":
        fac = factors(p, case)
        if p["load"]:
            return load_parameter(m, {"type": "arrayindexedscenariomonthlyfactors", "name": name, "scenario": scen.name, "values": [x[0] for x in v], "factors": fac})
        return P.ArrayIndexedScenarioMonthlyFactorsParameter(m, scen, [x[0] for x in v], fac, name=name)
    fn = os.path.abspath("%s_%d.h5" % (name, next(SERIAL)))
    with tables.open_file(fn, "w") as h:
        h.create_carray("/" if i % 2 else "/g", "x", obj=np.array(v, dtype=np.int32 if p["int"] else np.float64), createparents=True)
    kw = {"timestep_offset": p["off"]} if p["off"] else {}
    where = "/" if i % 2 else "/g"
    if p["load"]:
        d = dict(kw, type="tablesarray", name=name, url=fn, node="x", where=where)
        if scen is not None:
            d["scenario"] = scen.name
        return load_parameter(m, d)
    return P.TablesArrayParameter(m, fn, "x", where=where, scenario=scen, name=name, **kw)


def values(p, case, nsteps):
    import random
    rng = random.Random(p["seed"])
    rows = max(1, nsteps + p["extra"])
    cols = 1
    if p["k"] in ("sarray", "tables") and p["scen"]:
        cols = max(1, case["sizes"][p["scen"] - 1] + p.get("xcols", 0))
    if p.get("int"):
        return [[rng.randrange(0, 50) for _ in range(cols)] for _ in range(rows)]
    return [[rng.randrange(0, 9000) / 1000 for _ in range(cols)] for _ in range(rows)]


def factors(p, case):
    import random
    rng = random.Random(p["seed"] + 1)
    return [[rng.randrange(10, 200) / 100 for _ in range(12)] for _ in range(case["sizes"][p["scen"] - 1])]


def refused_sizes(m, sc, rng):
    k = rng.choice(["sarray", "sarray1", "frows", "fcols"])
    try:
        if k == "sarray":
            P.ArrayIndexedScenarioParameter(m, sc, np.ones((5, sc.size + 1)))
        elif k == "sarray1":
            P.ArrayIndexedScenarioParameter(m, sc, np.ones(5))
        elif k == "frows":
            P.ArrayIndexedScenarioMonthlyFactorsParameter(m, sc, np.ones(5), np.ones((sc.size + 1, 12)))
        else:
            P.ArrayIndexedScenarioMonthlyFactorsParameter(m, sc, np.ones(5), np.ones((sc.size, 11)))
    except ValueError:
        return True
    return False


def play(case):
    import random
    r = case["runs"][0]
    m = Model(start=r["start"], end=r["end"], timestep=case["step"], solver=case["solver"])
    sc = [Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None) for i, s in enumerate(case["sizes"])]
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    a, b = Input(m, "a", max_flow=1.0), Output(m, "b")
    a.connect(b)
    steps = []
    for r in case["runs"]:
        period(m, r["start"], r["end"])
        steps.append([[hours(t.start_time), hours(t.start_time + (t.end_time.normalize() - t.start_time)) + 24, 0] for t in m.timestepper.datetime_index])
    m.timestepper.start, m.timestepper.end = case["runs"][0]["start"], case["runs"][0]["end"]
    nsteps = max(len(s) for s in steps)
    ps = [make(m, sc, p, case, i, nsteps) for i, p in enumerate(case["ps"])]
    m2 = Model()
    ev = [{"k": "wrongsize", "refused": refused_sizes(m2, Scenario(m2, "x", size=3), random.Random(str(case["runs"])))}]
    for k, r in enumerate(case["runs"]):
        if k:
            period(m, r["start"], r["end"])
        try:
            prepare(m, case.get("always"))
        except (ValueError, IndexError, ResamplingError) as e:
            ev.append({"k": "setup", "run": k + 1, "ok": False, "err": "%s: %s" % (type(e).__name__, str(e)[:80])})
            break
        ev.append({"k": "setup", "run": k + 1, "ok": True})
        n = len(m.timestepper)
        for j, t in enumerate(m.timestepper.datetime_index):
            steps[k][j][2] = t.month
        at = 0 if r["restart"] is None else min(r["restart"], n - 1)
        if at:
            m.reset(start=m.timestepper.datetime_index[at].start_time)
        else:
            m.reset()
        for i in range(at, n):
            try:
                m.step()
            except IndexError:
                ev.append({"k": "stop", "run": k + 1, "i": i})
                break
            ev.append({"k": "step", "run": k + 1, "i": i, "v": [[q(x) for x in o.get_all_values()] for o in ps]})
        m.finish()
    spec = []
    for p in case["ps"]:
        d = {"k": p["k"], "scen": p["scen"], "off": p["off"], "size": case["sizes"][p["scen"] - 1] if p["scen"] else 1}
        if p["k"] == "frame":
            idx, v, cols, _ = frame_data(p, case)
            d.update(s=[[hours(t.start_time), hours((t + 1).start_time), q(x)] for t, x in zip(idx, v)], how=how(p, case), cols=cols, tick=p["f"] not in ("W", "M", "Q"))
        else:
            v = values(p, case, nsteps)
            d.update(v=[[q(x) for x in row] for row in v], rows=len(v), cols=len(v[0]), f=[[q(x, 100) for x in row] for row in factors(p, case)] if p["k"] == "factors" else [])
        spec.append(d)
    return {"ev": ev, "ps": spec, "steps": steps, "members": [[i + 1 for i in x] for x in members_(case)]}


def run(chk):
    chk.model_check("MCSeries", None if chk.quick else "MCSeriesFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(500, 10000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceSeries", cases, traces, what="series", chunks=6)
    chk.extra["accepted"] = sum(1 for t in traces for e in t.get("ev", []) if e["k"] == "setup" and e["ok"])
    chk.extra["refused"] = sum(1 for t in traces for e in t.get("ev", []) if e["k"] == "setup" and not e["ok"])
    for c in cases[:3]:
        chk.sample({"inputs": [p["k"] + p.get("f", "") for p in c["ps"]], "runs": c["runs"], "step": c["step"], "sizes": c["sizes"]})
