"""C12: delay nodes, previous flows of every kind of node, and the parameters that remember flows, over several runs of one model."""
import datetime
import numpy as np
from common import q, INF
from pywr.core import (Model, Input, Link, Output, Storage, Catchment, AggregatedNode, AggregatedStorage, VirtualStorage, PiecewiseLink, RiverGauge, Scenario,
                       Reservoir)
from pywr.nodes import DelayNode, LossLink, BreakLink, RollingVirtualStorage
from pywr.domains.river import RiverSplit
import pywr.parameters as P
from pywr._core import Node
from pywr.parameters import parameters as PP
from c_c09 import Demand

MIDS = ["link", "delay", "delay", "delay", "loss", "piecewise", "gauge", "break", "storage", "split"]
MEMS = ["delay", "delay", "flow", "flow", "deficit", "mean", "mean"]


class Watch(P.Parameter):
    """notes the previous flows of the nodes while a timestep is planned"""
    def __init__(self, model):
        super().__init__(model)
        self.nodes, self.seen = [], {}

    def value(self, ts, si):
        self.seen[si.global_id] = [q(float(n.prev_flow[si.global_id])) for n in self.nodes]
        return 0.0


def gen_run(rng, step):
    d0 = datetime.date(rng.choice([2015, 2016]), rng.randrange(1, 13), rng.randrange(1, 29))
    n = rng.randrange(3, 14)
    return {"start": d0.isoformat(), "end": (d0 + datetime.timedelta(days=n * step - 1)).isoformat(), "step": step, "n": n, "restart": None}


def gen(rng):
    step = rng.choice([1, 1, 2, 5, 7])
    runs = [gen_run(rng, step)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = gen_run(rng, rng.choice([step, step, 1, 2]))
        if rng.random() < .5:
            r = dict(runs[0])
        if rng.random() < .35:
            r["restart"] = rng.randrange(1, r["n"])
        runs.append(r)
    S = rng.choice([1, 2, 2, 3])
    base = int(np.lcm.reduce([r["step"] for r in runs]))

    def span():
        d = {"timesteps": rng.choice([1, 1, 2, 3, 4, 7])} if rng.random() < .65 else {"days": base * rng.choice([1, 2, 3])}
        return d
    chains = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        chains.append({"src": rng.choice(["catchment", "input"]), "hi": rng.choice([3.0, 8.0]), "seed": rng.randrange(10 ** 6), "oseed": rng.randrange(10 ** 6),
                       "mids": [dict(span(), k=rng.choice(MIDS), init=rng.choice([0.0, 0.0, round(rng.uniform(0, 5), 2)])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]})
    mem = [dict(span(), k=rng.choice(MEMS), pick=rng.random(), init=rng.choice([0.0, 1.5, 7.25])) for _ in range(rng.randrange(2, 7))]
    for x in mem:
        # a mean over days takes the whole timesteps which fit
        if x["k"] == "mean" and "days" in x and rng.random() < .6:
            x["days"] += rng.randrange(base)
    return {"runs": runs, "S": S, "chains": chains, "mem": mem,
            "agg": rng.random() < .5, "vs": rng.random() < .4, "aggsto": rng.random() < .5, "solver": rng.choice(["glpk", "glpk-edge", "lpsolve"]), "sub": rng.random() < .3}


def steps_of(d, runs):
    return [d["timesteps"] if "timesteps" in d else d["days"] // r["step"] for r in runs]


def build(case):
    r = case["runs"][0]
    m = Model(start=r["start"], end=r["end"], timestep=r["step"], solver=case["solver"])
    Scenario(m, "s", size=case["S"])
    watch = Watch(m)
    nodes, spec = [], []
    maxes = {}

    def add(n, **kw):
        nodes.append(n)
        spec.append(dict({"k": "node"}, **kw))
        return len(nodes)
    srcs, stos = [], []
    for i, ch in enumerate(case["chains"]):
        t = Demand(m, ch["seed"], ch["hi"], case["S"])
        if ch["src"] == "catchment":
            a = Catchment(m, "a%d" % i, flow=t)
        else:
            a = Input(m, "a%d" % i, max_flow=t)
        up = add(a)
        maxes[up] = (t, 0.0)
        srcs.append(a)
        prev, delays = a, False
        capped = ch["src"] == "input" and ch["oseed"] % 3 != 0 and not any(x["k"] == "delay" for x in ch["mids"])
        for j, mid in enumerate(ch["mids"]):
            n = "m%d_%d" % (i, j)
            k = mid["k"]
            span = {x: mid[x] for x in ("timesteps", "days") if x in mid}
            # a limit of its own, where nothing forces flow through it
            cap = Demand(m, ch["oseed"] + j, 5.0, case["S"]) if capped and k in ("link", "loss", "piecewise", "break") else None
            if k == "link":
                o = Link(m, n, max_flow=cap)
            elif k == "delay":
                o = DelayNode(m, n, initial_flow=mid["init"], **span)
                delays = True
            elif k == "loss":
                o = LossLink(m, n, loss_factor=0.25, max_flow=cap)
            elif k == "piecewise":
                o = PiecewiseLink(m, name=n, nsteps=2, costs=[-1.0, 0.0], max_flows=[1.0, cap])
            elif k == "gauge":
                o = RiverGauge(m, name=n, mrf=2.0, mrf_cost=-5.0, cost=0.0)
            elif k == "break":
                o = BreakLink(m, n, max_flow=cap)
            elif k == "split":
                o = RiverSplit(m, name=n, factors=[3.0, 1.0], slot_names=["a", "b"])
                x = Output(m, n + "x")
                o.connect(x, from_slot="b")
            else:
                o = Storage(m, n, cost=-0.5, initial_volume=5.0, max_volume=60.0, inputs=1, outputs=1)
                stos.append(o)
            prev.connect(o, **({"from_slot": "a"} if isinstance(prev, RiverSplit) else {}))
            idx = add(o)
            if cap is not None:
                maxes[idx] = (cap, 1.0 if k == "piecewise" else 0.0)
            if k == "delay":
                oi, ii = add(o.output), add(o.input)
                spec[idx - 1] = {"k": "delay", "n": steps_of(mid, case["runs"]), "init": q(mid["init"]), "up": None, "out": oi, "inp": ii}
                feed = prev
                # what arrives is what the node before it passes on
                spec[idx - 1]["up"] = up if not isinstance(feed, (Storage, RiverSplit)) else oi
            if k == "storage":
                up = idx
            else:
                up = idx
            if case["sub"] and k in ("loss", "piecewise", "gauge"):
                for sn in ([o.net, o.gross] if k == "loss" else list(o.sublinks)):
                    add(sn)
            prev = o
        sl = {"from_slot": "a"} if isinstance(prev, RiverSplit) else {}
        if ch["src"] == "input" and not delays:
            t = Demand(m, ch["oseed"], 6.0, case["S"])
            o = Output(m, "o%d" % i, cost=-20.0, max_flow=t)
            maxes[add(o)] = (t, 0.0)
            prev.connect(o, **sl)
        else:
            o = Output(m, "o%d" % i, cost=-20.0 if case["chains"][i]["oseed"] % 2 else 0.0)
            add(o)
            prev.connect(o, **sl)
    if case["agg"]:
        g = AggregatedNode(m, "g", srcs)
        add(g)
        spec[-1] = {"k": "sum", "of": [nodes.index(x) + 1 for x in srcs]}
    if case["vs"]:
        add(VirtualStorage(m, "v", srcs, max_volume=10000.0, initial_volume=10000.0))
        add(RollingVirtualStorage(m, "w", srcs, max_volume=10000.0, initial_volume=10000.0, timesteps=3))
    if case["aggsto"] and stos:
        add(AggregatedStorage(m, "t", stos))
        spec[-1] = {"k": "sum", "of": [nodes.index(x) + 1 for x in stos]}
    watch.nodes = nodes
    mems, mspec = [], []
    for k, d in enumerate(case["mem"]):
        span = {x: d[x] for x in ("timesteps", "days") if x in d}
        ok = [i for i, n in enumerate(nodes) if (i + 1 in maxes if d["k"] == "deficit" else isinstance(n, Node))]
        i = ok[int(d["pick"] * len(ok))]
        n = nodes[i]
        if d["k"] == "delay":
            p = P.FlowDelayParameter(m, n, initial_flow=d["init"], name="p%d" % k, **span)
        elif d["k"] == "flow":
            p = P.FlowParameter(m, n, initial_value=d["init"], name="p%d" % k)
        elif d["k"] == "deficit":
            p = P.DeficitParameter(m, n, name="p%d" % k)
        else:
            p = P.RollingMeanFlowNodeParameter(m, n, initial_flow=d["init"], name="p%d" % k, **span)
        mems.append(P.AggregatedParameter(m, [p], agg_func="sum", name="q%d" % k))
        mspec.append({"k": d["k"], "node": i + 1, "n": steps_of(d, case["runs"]), "init": q(d["init"])})
    return m, watch, nodes, spec, mems, mspec, maxes


def play(case):
    m, watch, nodes, spec, mems, mspec, maxes = build(case)
    S = case["S"]
    ev = []
    for k, r in enumerate(case["runs"]):
        if k:
            t = m.timestepper
            if r != case["runs"][k - 1]:
                t.start, t.end, t.delta = r["start"], r["end"], r["step"]
        if not k or m.dirty or m.timestepper.dirty:
            m.setup()
        if r["restart"] is None:
            m.reset()
        else:
            m.reset(start=m.timestepper.datetime_index[r["restart"]].start_time)
        ev.append({"k": "reset"})
        for _ in range(r["n"] - (r["restart"] or 0)):
            watch.seen.clear()
            m.step()
            vals = [np.array(p.get_all_values()) for p in mems]
            mx = {i: np.array(t.get_all_values()) + c for i, (t, c) in maxes.items()}
            for s in range(S):
                f = [float(n.flow[s]) for n in nodes]
                ev.append({"k": "step", "run": k + 1, "s": s + 1, "f": [q(x) for x in f], "prev": [q(float(n.prev_flow[s])) for n in nodes], "prev0": watch.seen[s],
                           "d": [q(mx[i + 1][s] - f[i]) if i + 1 in mx else 0 for i in range(len(nodes))], "mem": [q(v[s]) for v in vals]})
    return {"ev": ev, "S": S, "nodes": spec, "mem": mspec}


def run(chk):
    chk.model_check("MCMemory", None if chk.quick else "MCMemoryFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(400, 8000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceMemory", cases, traces, what="memory", chunks=6)
    for c in cases[:3]:
        chk.sample({"chains": [[x["k"] for x in h["mids"]] for h in c["chains"]], "memories": [x["k"] for x in c["mem"]], "runs": c["runs"]})
