"""C02: life cycle of every component, on all entry points, with failures inside timesteps."""
import json
from common import q
from probes import *


def run_case(case):
    rng = random.Random(case["seed"])
    log = Log()
    m = Model(solver=case["solver"], start="2015-01-01", end=day(case["n"]))
    m.solver = SolverProxy(m.solver, log)
    N = NodeProbes(log)
    sup = N.make(Input, m, "supply", max_flow=10.0)
    lk = N.make(Link, m, "link")
    dem = N.make(Output, m, "demand", max_flow=7.0, cost=-10.0)
    sup.connect(lk)
    lk.connect(dem)
    nodes = [sup, lk, dem]
    if case["storage"]:
        st = N.make(Storage, m, "store", max_volume=50.0, initial_volume=20.0, cost=-1.0)
        lk.connect(st)
        st.connect(dem)
        nodes.append(st)
    if case["child"]:     # a node that is part of another node
        ch = N.make(Input, m, "child", max_flow=2.0, parent=sup)
        ch.connect(dem)
        nodes.append(ch)
    if case["agg"]:
        ag = N.make(AggregatedNode, m, "agg", [sup])
        ag.max_flow = 9.0
        nodes.append(ag)
    if case["virt"]:
        nodes.append(N.make(VirtualStorage, m, "virt", [sup], max_volume=1000.0, initial_volume=900.0))
    if case["piece"]:
        p = N.make(LossLink, m, "loss", loss_factor=0.1)
        sup.connect(p)
        p.connect(dem)
        nodes.append(p)
    params, recs = [], []
    for k in range(case["np"]):
        params.append(ProbeParam(m, log, nodes=nodes, name="p%d" % k))
    deps = []
    for a, b in case["deps"]:
        params[a].children.add(params[b])
        deps.append([params[a].pid, params[b].pid])
    if params:
        dem.cost = params[0]
    for k in range(case["nr"]):
        recs.append(ProbeRec(m, log, name="r%d" % k))
        if params:
            x = params[rng.randrange(len(params))]
            recs[-1].children.add(x)
            deps.append([recs[-1].pid, x.pid])
    rec = NumpyArrayNodeRecorder(m, dem)
    ids = [x.pid for x in nodes + params + recs]
    full = None
    steps_since = None       # flows of steps taken one by one since a reset
    n = case["n"]
    pos, dirty = 0, True
    for i, o in enumerate(case["ops"]):
        name = o[0]
        if name == "change":
            n = o[1]
            m.timestepper.end = day(n)
            log.add("change", n=n)
            dirty, full = True, None
            continue
        if name == "step" and not dirty and pos >= n:
            continue
        log.fail = o[1] if len(o) > 1 else None     # [phase, component index or solver, timestep]
        if log.fail and log.fail[0] == "limit":     # an infeasible allocation
            sup.max_flow, dem.min_flow = 1.0, 3.0
            if case["storage"]:
                st.max_volume, st.initial_volume = 0.0, 0.0
        log.add("call", op=name)
        ok = True
        if name in ("setup", "reset", "run") or dirty:
            pos = 0
        try:
            if name == "step":
                pos += 1
            getattr(m, name)()
        except Exception as e:
            ok = False
            if not log.failed_now:
                raise
        if name != "reset" and (ok or name in ("run", "step")):
            dirty = False
        if name == "run":
            pos = n
        log.add("return", ok=ok)
        log.failed_now = False
        if log.fail and log.fail[0] == "limit":
            sup.max_flow, dem.min_flow = 10.0, 0.0
            if case["storage"]:
                st.max_volume, st.initial_volume = 50.0, 20.0
        if name == "run" and ok and log.fail is None:
            d = [[q(x) for x in r] for r in rec.data]
            if full is not None:
                log.add("same", a=d, b=full)
            full = d
        if name == "step" and ok and not log.fail and pos == n and steps_since is not None and full is not None and steps_since == n - 1:
            log.add("same", a=[[q(x) for x in r] for r in rec.data], b=full)
        if name in ("reset", "setup"):
            steps_since = 0
        elif name == "step" and steps_since is not None and ok and not log.fail:
            steps_since += 1
        else:
            steps_since = None
    return {"all": ids, "vals": [p.pid for p in params], "deps": deps, "n": case["n"], "order": False, "life": True, "ev": log.ev}


def gen(rng):
    n = rng.choice([1, 2, 3, 4])
    np_ = rng.randrange(0, 5)
    deps = [[a, b] for a in range(np_) for b in range(a + 1, np_) if rng.random() < 0.4]
    ops = []
    cur = n
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        if r < 0.12:
            cur = rng.choice([1, 2, 3, 4])
            ops.append(["change", cur])
        elif r < 0.5:
            ops.append(["run"])
        elif r < 0.62:
            ops.append(["reset"])
        elif r < 0.7:
            ops.append(["setup"])
        elif r < 0.8:
            ops += [["reset"]] + [["step"]] * cur
        else:
            ops.append(["step"])
        if ops[-1][0] in ("run", "step") and rng.random() < 0.3:
            ph = rng.choice(["before", "value", "after", "solver", "after", "limit"])
            ops[-1] = [ops[-1][0], [ph, rng.randrange(8), rng.randrange(cur)]]
    if ops[0][0] in ("reset", "change"):      # a reset is only meaningful once the model was set up
        ops = [["setup"]] + ops
    return {"seed": rng.randrange(10 ** 9), "solver": rng.choice(SOLVERS), "n": n, "np": np_, "nr": rng.randrange(0, 3), "deps": deps,
            "storage": rng.random() < 0.6, "child": rng.random() < 0.5, "agg": rng.random() < 0.4, "virt": rng.random() < 0.4,
            "piece": rng.random() < 0.3, "ops": [["run"]] + ops if rng.random() < 0.5 else ops}


def run(chk):
    chk.model_check("MCLifecycle")
    cases = [gen(chk.rng) for _ in range(chk.n(240, 3000))]
    traces = chk.run_cases(run_case, cases)
    chk.validate("TraceLifecycle", cases, traces)
    for c in cases[:3]:
        chk.sample(c)
    chk.assumptions += ["phases are observed through overriding methods of probe nodes, parameters and recorders",
                        "setup failures are not injected"]
