"""C22: recorders of events against Events.tla"""
import datetime, random
import numpy as np
from common import q, SOLVERS, prepare, period
from c_c15 import near
from c_c16 import members_
from c_c17 import Tab, XTab
from c_c20 import fn, func, e8, PLAIN, MORE
from c_c21 import steps, final
from pywr.core import Model, Input, Output, Link, Storage, Scenario
import pywr.recorders as R
from pywr.recorders._thresholds import NodeThresholdRecorder, StorageThresholdRecorder

NODES = ["a", "b", "c"]
NO = {"fn": "", "p": 0, "kind": ""}
HOUR = lambda t: 24 * t.toordinal() + t.hour
PREDS = {"LT": ["LT", "<", "lt"], "GT": ["GT", ">"], "LE": ["LE", "<="], "GE": ["GE", ">=", "ge"], "EQ": ["EQ", "="]}
NAMES = ["sum", "min", "max", "mean", "median", "count", "range"]
PLAIN_ONLY = ["sum", "min", "max", "mean", "median"]


def spread(s):
    return s.max() - s.min()


def ef(f):
    return spread if f["fn"] == "range" else f["fn"]


def one(rng, case):
    names = NAMES[:-1] if case["json"] else NAMES
    pick = lambda: {"fn": rng.choice(names), "p": 0, "kind": ""}
    src = rng.choice(["index", "index", "par", "par", "count", "total", "low"] + ([] if case["json"] else ["node", "node", "store", "store"]))
    d = {"src": src, "a": rng.randrange(1, 3), "rel": rng.choice(list(PREDS)), "thr": 0, "least": rng.choice([1, 1, 1, 2, 3, 5]), "track": rng.choice([0, 1, 2, 3])}
    if src in ("node", "total"):
        d["a"] = rng.randrange(1, 4)
    if src == "node":
        if d["rel"] == "EQ":
            d["rel"] = "LT"
        d["thr"] = q(e8(rng, 0, 3) + 1 / 16)
    if src in ("store", "low"):
        if d["rel"] == "EQ":
            d["rel"] = "GT"
        d["thr"] = q(e8(rng, 0, case["cap"]) + 1 / 128)
    if src == "count":
        d["thr"] = 1000 * rng.randrange(-1, 4)
    d["ev"] = pick() if rng.random() < .7 else dict(NO)
    d["dur"], d["st"], d["rec"] = pick(), pick(), pick()
    d["af"] = fn(rng, PLAIN if case["json"] else MORE)
    d["ign"] = rng.random() < .5
    # functions which are not given fall back to the general one, which then has to suit both
    d["plain"] = rng.random() < .2
    if d["plain"]:
        f = {"fn": rng.choice(PLAIN_ONLY), "p": 0, "kind": ""}
        d.update(dur=f, st=f, rec=f, af=f)
    d["evplain"] = rng.random() < .2
    if d["evplain"]:
        d["ev"] = {"fn": rng.choice(PLAIN_ONLY), "p": 0, "kind": ""}
    return d


def gen(rng):
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .4:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .6:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None]]) for s in sizes]
    step = rng.choice([1, 1, 2, 7, 30, 400, "W", "M", "Q", "Y", "12h", "39h"])
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "seed": rng.randrange(10 ** 6), "solver": rng.choice(SOLVERS), "json": rng.random() < .4, "hold": rng.choice([.3, .6, .8])}
    case["cap"] = 16 if step in (1, 2, "12h", "39h") else 400
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = near(rng, rng.choice([1899, 1999, 2000, 2015, 2016, 2020]))
        n = rng.randrange(1, 25)
        runs.append({"start": a.isoformat(), "n": n, "slack": rng.choice([0, 0, rng.randrange(0, 400)]), "restart": rng.randrange(1, n) if n > 1 and rng.random() < .2 else None, "to": rng.choice(["run", n, rng.randrange(1, n + 1)])})
        if len(runs) > 1 and rng.random() < .35:
            runs[-1] = dict(runs[-2], to=rng.choice(["run", runs[-2]["n"], runs[-2]["to"]]))
    case["runs"] = runs
    case["recs"] = [one(rng, case) for _ in range(rng.randrange(2, 5))]
    case["wrong"] = rng.choice(["", "", "", "", "", "", "length", "untracked"])
    return case


def tables(case, width):
    rng = random.Random(case["seed"])
    n = max(r["n"] for r in case["runs"])

    def rows(draw, hold):
        out, cur = [], [draw() for _ in range(width)]
        for _ in range(n):
            cur = [x if rng.random() < hold else draw() for x in cur]
            out.append(cur)
        return out
    flow = lambda: e8(rng, 0, 3) if rng.random() < .6 else 0.0
    h = case["hold"]
    return ([rows(lambda: rng.choice([0.0, 0.0, .5, 1.0, -.25, 1.5]), h) for _ in range(2)] + [rows(lambda: e8(rng, -4, 9), .1)] + [rows(flow, h) for _ in range(3)],
            [rows(lambda: rng.choice([0, 0, 1, 1, 2, -1, 3]), h) for _ in range(2)])


def options(d):
    e = {"minimum_event_length": d["least"]} if d["least"] > 1 or d["track"] == 3 else {}
    if d["ev"]["fn"]:
        e["agg_func" if d["evplain"] else "event_agg_func"] = ef(d["ev"])
    g, s = ({"agg_func": ef(d["af"]), "ignore_nan": d["ign"]} if d["plain"] else {"agg_func": func(d["af"]), "ignore_nan": d["ign"]}), None
    s = dict(g)
    if not d["plain"]:
        g["recorder_agg_func"] = ef(d["dur"])
        s.update(event_agg_func=ef(d["st"]), recorder_agg_func=ef(d["rec"]))
    return e, g, s


def build(case, width):
    ds, run = case["recs"], case["runs"][0]
    tabs, idx = tables(case, width)
    start, end = run["start"], final(case, run).isoformat()
    vol, cap = case["cap"] / 2, float(case["cap"])
    if case["json"]:
        rng = random.Random(case["seed"])
        pars = [("p%d" % i, {"type": "tab", "rows": t}) for i, t in enumerate(tabs)] + [("x%d" % i, {"type": "xtab", "rows": t}) for i, t in enumerate(idx)]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p3"}, {"name": "b", "type": "Output", "max_flow": "p4", "cost": -10}, {"name": "c", "type": "Link"},
                 {"name": "st", "type": "Storage", "max_volume": cap, "initial_volume": vol, "cost": -1}, {"name": "o", "type": "Output", "max_flow": "p5", "cost": -20}, {"name": "i2", "type": "Input", "max_flow": "p4"}]
        rng.shuffle(nodes)
        recs = []
        for i, d in enumerate(ds):
            trig = "t%d" % i
            if d["src"] == "index":
                trig = "x%d" % (d["a"] - 1)
            elif d["src"] == "par":
                trig = "p%d" % (d["a"] - 1)
            elif d["src"] == "count":
                recs.append((trig, {"type": "timestepcountindexparameterrecorder", "parameter": "x%d" % (d["a"] - 1), "threshold": d["thr"] // 1000}))
            elif d["src"] == "total":
                recs.append((trig, {"type": "totalflownode", "node": NODES[d["a"] - 1]}))
            else:
                recs.append((trig, {"type": "minimumthresholdvolumestorage", "node": "st", "threshold": d["thr"] / 1000}))
            e, g, s = options(d)
            recs.append(("e%d" % i, dict({"type": "event", "threshold": trig}, **e, **({"tracked_parameter": "p%d" % (d["track"] - 1)} if d["track"] else {}))))
            recs.append(("d%d" % i, dict({"type": "eventduration", "event_recorder": "e%d" % i}, **g)))
            if d["track"]:
                recs.append(("s%d" % i, dict({"type": "eventstatistic", "event_recorder": "e%d" % i}, **s)))
        rng.shuffle(recs)
        doc = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": start, "end": end, "timestep": case["step"]},
               "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])],
               "nodes": nodes, "edges": [["a", "c"], ["c", "b"], ["i2", "st"], ["st", "o"]], "parameters": dict(pars), "recorders": dict(recs)}
        if case["combos"] is not None:
            doc["scenario_combinations"] = case["combos"]
        m = Model.load(doc, solver=case["solver"])
        return m, {k: m.nodes[k] for k in NODES + ["st"]}, [[m.recorders["e%d" % i], m.recorders["d%d" % i], m.recorders["s%d" % i] if d["track"] else None] for i, d in enumerate(ds)], tabs, idx
    m = Model(start=start, end=end, timestep=case["step"], solver=case["solver"])
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    ps = [Tab(m, t, name="p%d" % i) for i, t in enumerate(tabs)]
    xs = [XTab(m, t, name="x%d" % i) for i, t in enumerate(idx)]
    N = {"a": Input(m, "a", max_flow=ps[3]), "b": Output(m, "b", max_flow=ps[4], cost=-10), "c": Link(m, "c"), "st": Storage(m, "st", max_volume=cap, initial_volume=vol, cost=-1),
         "o": Output(m, "o", max_flow=ps[5], cost=-20), "i2": Input(m, "i2", max_flow=ps[4])}
    for x, y in (("a", "c"), ("c", "b"), ("i2", "st"), ("st", "o")):
        N[x].connect(N[y])
    rng, recs = random.Random(case["seed"]), []
    for i, d in enumerate(ds):
        rel = rng.choice(PREDS[d["rel"]])
        if d["src"] == "index":
            t = xs[d["a"] - 1]
        elif d["src"] == "par":
            t = ps[d["a"] - 1]
        elif d["src"] == "node":
            t = NodeThresholdRecorder(m, N[NODES[d["a"] - 1]], d["thr"] / 1000, name="t%d" % i, **({} if d["rel"] == "LT" and rng.random() < .5 else {"predicate": rel}))
        elif d["src"] == "store":
            t = StorageThresholdRecorder(m, N["st"], d["thr"] / 1000, predicate=rel, name="t%d" % i)
        elif d["src"] == "count":
            t = R.TimestepCountIndexParameterRecorder(m, xs[d["a"] - 1], d["thr"] // 1000, name="t%d" % i)
        elif d["src"] == "total":
            t = R.TotalFlowNodeRecorder(m, N[NODES[d["a"] - 1]], name="t%d" % i)
        else:
            t = R.MinimumThresholdVolumeStorageRecorder(m, N["st"], d["thr"] / 1000, name="t%d" % i)
        e, g, s = options(d)
        r = R.EventRecorder(m, t, tracked_parameter=ps[d["track"] - 1] if d["track"] else None, name="e%d" % i, **e)
        recs.append([r, R.EventDurationRecorder(m, r, name="d%d" % i, **g), R.EventStatisticRecorder(m, r, name="s%d" % i, **s) if d["track"] else None])
    return m, N, recs, tabs, idx


def held(d, rs):
    e, du, st = rs
    f = e.to_dataframe()
    assert len(f) == len(e.events)
    x = {"events": []}
    has = d["track"] > 0 and d["ev"]["fn"] != ""
    assert ("value" in f.columns) == (has and len(f) > 0), list(f.columns)
    for i, v in enumerate(e.events):
        r = f.iloc[i]
        assert r["start"] == v.start.datetime and r["end"] == v.end.datetime and r["scenario_id"] == v.scenario_index.global_id
        assert v.duration == (r["end"] - r["start"]).days
        x["events"].append({"s": int(r["scenario_id"]) + 1, "from": HOUR(r["start"]), "to": HOUR(r["end"]), "vals": [q(z) for z in v.values] if d["track"] else [], "value": q(r["value"]) if has else 0})
    x["durs"], x["dagg"] = [q(z) for z in du.values()], q(du.aggregated_value())
    x["stats"], x["sagg"] = ([q(z) for z in st.values()], q(st.aggregated_value())) if st else ([], 0)
    return x


def wrong(case):
    m = Model(start="2015-01-01", end="2015-01-05")
    a, b = Input(m, "a", max_flow=1), Output(m, "b", max_flow=1, cost=-1)
    a.connect(b)
    p = Tab(m, [[0.0]] * 5, name="p")
    try:
        if case["wrong"] == "length":
            R.EventRecorder(m, p, minimum_event_length=random.Random(case["seed"]).choice([0, -1, -7]))
        else:
            R.EventStatisticRecorder(m, R.EventRecorder(m, p, name="e"), name="s")
        m.setup()
    except ValueError:
        return True
    return False


class Look:
    """what the triggers and tracked values are made from, at the end of every step"""

    def __init__(self, N, ps, xs, ls):
        self.N, self.ps, self.xs, self.ls = N, ps, xs, ls

    def at(self, i):
        return {"k": "step", "h": self.ls[i][0], "n": self.ls[i][1], "ix": [t[i] for t in self.xs], "par": [[q(v) for v in t[i]] for t in self.ps[:3]],
                "fl": [[q(v) for v in self.N[n].flow] for n in NODES], "vol": [q(v) for v in self.N["st"].volume]}


class Watch(R.Recorder):
    """keeps what is looked at during a run of the whole model"""

    def after(self):
        self.seen.append(self.look.at(self.model.timestepper.current.index))


def play(case):
    mem = members_(case)
    width = len(mem)
    m, N, recs, tabs, idx = build(case, width)
    w = Watch(m, name="watch")
    ev = [{"k": "refuse", "refused": wrong(case)}] if case["wrong"] else []
    for k, r in enumerate(case["runs"]):
        ls = steps(case, r)
        if k:
            period(m, r["start"], final(case, r))
        w.seen, w.look = [], Look(N, tabs, idx, ls)
        if r["to"] == "run":
            m.run()
            assert len(w.seen) == r["n"]
        else:
            prepare(m, case.get("always"))
            assert len(m.timestepper) == r["n"], (len(m.timestepper), r["n"])
            at = r["restart"] or 0
            if at:
                m.reset(start=m.timestepper.datetime_index[at].start_time)
            else:
                m.reset()
            for _ in range(max(1, r["to"] - at)):
                m.step()
            m.finish()
        ev.append({"k": "run"})
        ev.extend(w.seen)
        ev.append({"k": "end", "rs": [held(d, x) for d, x in zip(case["recs"], recs)]})
    return {"ev": ev, "width": width, "recs": [{k: d[k] for k in ("src", "a", "rel", "thr", "least", "track", "ev", "dur", "st", "rec", "af", "ign")} for d in case["recs"]]}


def run(chk):
    chk.model_check("MCEvents", None if chk.quick else "MCEventsFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(500, 8000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceEvents", cases, traces, what="events", chunks=6)
    kinds, stp = {}, {}
    for c in cases:
        stp[str(c["step"])] = stp.get(str(c["step"]), 0) + 1
        for d in c["recs"]:
            kinds[d["src"]] = kinds.get(d["src"], 0) + 1
    chk.extra["triggers"], chk.extra["steps"] = kinds, stp
    for c in cases[:3]:
        chk.sample({"triggers": [d["src"] for d in c["recs"]], "step": c["step"], "sizes": c["sizes"], "json": c["json"], "runs": c["runs"]})
