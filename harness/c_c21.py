"""C21: recorders of calendar years against Annual.tla"""
import calendar, datetime, random
import numpy as np
from common import q, SOLVERS, prepare, period
from c_c15 import near
from c_c16 import members_
from c_c17 import Tab, XTab
from c_c20 import fn, func, e8, qn, PLAIN, MORE, NOFN
from pywr.core import Model, Input, Output, Link, Scenario, AggregatedNode
from pywr.nodes import PiecewiseLink, Catchment
import pywr.recorders as R

NODES = ["a", "b", "c", "a2", "g"]
BASE = {"nodes": [], "facs": [], "pars": [], "thr": 0, "months": [], "from": [], "to": [], "tf": NOFN, "af": NOFN}


def steps(case, run):
    """first hour, length in hours and date of every timestep of a run"""
    a = datetime.date.fromisoformat(run["start"])
    k, out = case["step"], []
    if isinstance(k, int) or k.endswith("h"):
        n = 24 * k if isinstance(k, int) else int(k[:-1])
        for i in range(run["n"]):
            h = 24 * a.toordinal() + i * n
            out.append((h, n, h // 24))
        return out
    y, m = a.year, a.month
    d = a - datetime.timedelta(a.weekday())
    for i in range(run["n"]):
        if k == "W":
            b = d + datetime.timedelta(7)
        else:
            w = {"M": 1, "Q": 3, "Y": 12}[k]
            m0 = (m - 1) // w * w + 1
            d = datetime.date(y, m0, 1)
            y, m = (y, m0 + w) if m0 + w < 13 else (y + 1, 1)
            b = datetime.date(y, m, 1)
        out.append((24 * d.toordinal(), 24 * (b - d).days, b.toordinal() - 1))
        d = b
    return out


def final(case, run):
    """an end date which gives the run its timesteps"""
    ls = steps(case, run)
    h = ls[-1][0] + (ls[-1][1] - 24 if case["step"] in ("W", "M", "Q", "Y") else 0)
    e = datetime.datetime.combine(datetime.date.fromordinal(h // 24), datetime.time(h % 24))
    if isinstance(case["step"], int):
        e += datetime.timedelta(run["slack"] % case["step"])
    elif case["step"] in ("W", "M", "Q", "Y"):
        e -= datetime.timedelta(run["slack"] % 7)
    return e


def one(rng, case):
    d = dict(BASE)
    d["kind"] = k = rng.choice(["total", "total", "exceed", "exceed", "exceed", "years"])
    if k == "total":
        d["nodes"] = [rng.randrange(1, 6) for _ in range(rng.randrange(1, 4))]
        d["plain"] = rng.random() < .4
        d["facs"] = [2 if d["plain"] else rng.choice([2, 1, 3, -2, 0]) for _ in d["nodes"]]
    else:
        d["pars"] = [rng.randrange(1, 4)] if k == "years" else rng.sample([1, 2, 3], rng.randrange(1, 4))
        d["thr"] = rng.choice([-1, 0, 1, 2, 3])
    if k == "exceed":
        if rng.random() < .4:
            d["months"] = rng.sample(range(1, 13), rng.randrange(1, 5))
        md = lambda: [m := rng.randrange(1, 13), rng.choice([1, 15, rng.randrange(1, 29), [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]])]
        if rng.random() < .5:
            a, b = md(), md()
            if a > b and rng.random() < .8:
                a, b = b, a
            c = rng.random()
            d["from"], d["to"] = (a, b) if c < .6 else (a, []) if c < .8 else ([], b)
    if k != "years":
        d["tf"] = fn(rng, PLAIN + (["count_nonzero", "range"] if k == "exceed" else []))
        d["default"] = rng.random() < .3
        if d["default"]:
            d["tf"] = {"fn": "sum", "p": 0, "kind": ""}
    d["af"] = fn(rng, PLAIN)
    return d


def gen(rng):
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .5:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .7:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None]]) for s in sizes]
    step = rng.choice([1, 1, 2, 7, 10, 30, 45, 100, 400, "W", "W", "M", "Q", "Y", "39h", "60h", "12h"])
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "seed": rng.randrange(10 ** 6), "solver": rng.choice(SOLVERS), "json": rng.random() < .4, "link": rng.random() < .6}
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        y = rng.choice([1899, 1999, 2000, 2015, 2016, 2020])
        a = near(rng, y)
        if rng.random() < .6:
            a = datetime.date(y, 12, 1) + datetime.timedelta(rng.randrange(0, 45))
        if runs and rng.random() < .4:
            a = datetime.date.fromisoformat(runs[-1]["start"])
        n = rng.randrange(2, 20) if step not in (1, 2, "12h") or rng.random() < .8 else rng.randrange(20, 60)
        runs.append({"start": a.isoformat(), "n": n, "slack": rng.choice([0, 0, rng.randrange(0, 400)]), "restart": rng.randrange(1, n) if rng.random() < .2 else None})
        if len(runs) > 1 and rng.random() < .35:
            runs[-1] = dict(runs[-2])
    case["runs"] = runs
    case["recs"] = [one(rng, case) for _ in range(rng.randrange(2, 6))]
    return case


def tables(case, width):
    rng = random.Random(case["seed"])
    n = max(r["n"] for r in case["runs"])

    def rows(draw, hold):
        out, cur = [], [draw() for _ in range(width)]
        for _ in range(n):
            if rng.random() > hold:
                cur = [draw() for _ in range(width)]
            out.append(cur)
        return out
    flow = lambda: e8(rng, 0, 3) if rng.random() < .9 else 0.0
    return [rows(flow, .4) for _ in range(3)], [rows(lambda: rng.choice([0, 0, 1, 1, 2, 3, -1] if rng.random() < .7 else [-1, -2]), .5) for _ in range(3)]


def options(d):
    kw = {"agg_func": func(d["af"])}
    if d["kind"] != "years" and not d["default"]:
        kw["temporal_agg_func"] = func(d["tf"])
    if d["kind"] == "total":
        if not d["plain"]:
            kw["factors"] = [x / 2 for x in d["facs"]]
        return kw
    kw["threshold"] = d["thr"]
    if d["kind"] == "exceed":
        if d["months"]:
            kw["exclude_months"] = d["months"]
        for f in ("from", "to"):
            if d[f]:
                kw["include_%s_month" % f], kw["include_%s_day" % f] = d[f]
    return kw


def build(case, width):
    ds, run = case["recs"], case["runs"][0]
    tabs, idx = tables(case, width)
    start, end = run["start"], final(case, run).isoformat()
    if case["json"]:
        rng = random.Random(case["seed"])
        pars = [("p%d" % i, {"type": "tab", "rows": t}) for i, t in enumerate(tabs)] + [("x%d" % i, {"type": "xtab", "rows": t}) for i, t in enumerate(idx)]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p0"}, {"name": "b", "type": "Output", "max_flow": "p1", "cost": -10}, {"name": "a2", "type": "Catchment", "flow": "p2"},
                 {"name": "b2", "type": "Output"}, {"name": "g", "type": "AggregatedNode", "nodes": ["a", "a2"]},
                 {"name": "c", "type": "Link"} if case["link"] else {"name": "c", "type": "PiecewiseLink", "nsteps": 2, "max_flows": [1.0, None], "costs": [-4, 3]}]
        rng.shuffle(nodes)
        recs = {}
        for i, d in enumerate(ds):
            e = options(d)
            if "range" in (d["tf"]["fn"], d["af"]["fn"]):
                e["temporal_agg_func"] = d["tf"]["fn"] = "max"
                d["tf"] = {"fn": "max", "p": 0, "kind": ""}
            if d["kind"] == "total":
                e.update(type="annualtotalflow", nodes=[NODES[j - 1] for j in d["nodes"]])
            elif d["kind"] == "exceed":
                e.update(type="AnnualCountIndexThresholdRecorder", parameters=["x%d" % (j - 1) for j in d["pars"]])
            else:
                e.update(type="annualcountindexparameterrecorder", parameter="x%d" % (d["pars"][0] - 1))
            recs["r%d" % i] = e
        doc = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": start, "end": end, "timestep": case["step"]},
               "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])],
               "nodes": nodes, "edges": [["a", "c"], ["c", "b"], ["a2", "b2"]], "parameters": dict(pars), "recorders": recs}
        if case["combos"] is not None:
            doc["scenario_combinations"] = case["combos"]
        m = Model.load(doc, solver=case["solver"])
        return m, {k: m.nodes[k] for k in NODES}, [m.recorders["r%d" % i] for i in range(len(ds))], idx
    m = Model(start=start, end=end, timestep=case["step"], solver=case["solver"])
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    ps = [Tab(m, t, name="p%d" % i) for i, t in enumerate(tabs)]
    xs = [XTab(m, t, name="x%d" % i) for i, t in enumerate(idx)]
    N = {"a": Input(m, "a", max_flow=ps[0]), "b": Output(m, "b", max_flow=ps[1], cost=-10), "a2": Catchment(m, "a2", flow=ps[2]), "b2": Output(m, "b2")}
    N["c"] = Link(m, "c") if case["link"] else PiecewiseLink(m, name="c", nsteps=2, max_flows=[1.0, None], costs=[-4, 3])
    N["g"] = AggregatedNode(m, "g", [N["a"], N["a2"]])
    for x, y in (("a", "c"), ("c", "b"), ("a2", "b2")):
        N[x].connect(N[y])
    recs = []
    for i, d in enumerate(ds):
        kw = options(d)
        if d["kind"] == "total":
            recs.append(R.AnnualTotalFlowRecorder(m, "r%d" % i, [N[NODES[j - 1]] for j in d["nodes"]], **kw))
        elif d["kind"] == "exceed":
            thr = kw.pop("threshold")
            recs.append(R.AnnualCountIndexThresholdRecorder(m, [xs[j - 1] for j in d["pars"]], "r%d" % i, thr, **kw))
        else:
            recs.append(R.AnnualCountIndexParameterRecorder(m, xs[d["pars"][0] - 1], kw.pop("threshold"), name="r%d" % i, **kw))
    return m, N, recs, idx


def held(d, rec):
    x = {"data": [], "years": [], "cols": []}
    if d["kind"] != "years":
        f = rec.to_dataframe()
        assert np.array_equal(f.values, rec.data)
        x["data"] = [[q(v) for v in r] for r in f.values]
        x["years"] = [int(i.year) for i in f.index]
        x["cols"] = [[int(v) + 1 for v in (c if isinstance(c, tuple) else (c,))] for c in f.columns]
    x["vals"] = [q(v) for v in rec.values()]
    x["agg"] = q(rec.aggregated_value())
    return x


def play(case):
    mem = members_(case)
    width = len(mem)
    m, N, recs, idx = build(case, width)
    ev = []
    for k, r in enumerate(case["runs"]):
        ls = steps(case, r)
        if k:
            period(m, r["start"], final(case, r))
        prepare(m, case.get("always"))
        assert len(m.timestepper) == r["n"], (len(m.timestepper), r["n"])
        at = r["restart"] or 0
        if at:
            m.reset(start=m.timestepper.datetime_index[at].start_time)
        else:
            m.reset()
        ev.append({"k": "run"})
        for i in range(at, r["n"]):
            m.step()
            ev.append({"k": "step", "h": ls[i][0], "n": ls[i][1], "o": ls[i][2], "fl": [[q(x) for x in N[n].flow] for n in NODES], "ix": [t[i] for t in idx]})
        m.finish()
        ev.append({"k": "end", "first": int(r["start"][:4]), "last": final(case, r).year, "rs": [held(d, rec) for d, rec in zip(case["recs"], recs)]})
    return {"ev": ev, "members": [[i + 1 for i in x] for x in mem], "recs": [{k: d[k] for k in list(BASE) + ["kind"]} for d in case["recs"]]}


def run(chk):
    chk.model_check("MCAnnual", None if chk.quick else "MCAnnualFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(600, 10000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceAnnual", cases, traces, what="annual", chunks=6)
    kinds, stp = {}, {}
    for c in cases:
        stp[str(c["step"])] = stp.get(str(c["step"]), 0) + 1
        for d in c["recs"]:
            kinds[d["kind"]] = kinds.get(d["kind"], 0) + 1
    chk.extra["recorders"], chk.extra["steps"] = kinds, stp
    for c in cases[:3]:
        chk.sample({"recorders": [d["kind"] for d in c["recs"]], "step": c["step"], "sizes": c["sizes"], "json": c["json"], "runs": c["runs"]})
