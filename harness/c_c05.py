"""C05 (and, with other emphasis, C06, C07, C08, C11): random networks against the network specification."""
import nets
from common import q

MIX = {
    "C05": dict(agg=0.3, vs=0.2, conv=0.15, tight=0.35, lims=0.7),
    "C06": dict(agg=0.3, vs=0.2, conv=0.15, tight=0.15, big=True),
    "C07": dict(agg=0.1, vs=0.1, conv=0.0, tight=0.1, aggsto=0.8),
    "C08": dict(agg=0.15, vs=1.0, conv=0.0, tight=0.1),
    "C13": dict(agg=0.1, vs=0.1, conv=0.0, tight=0.15, cmp=0.7),
    "C11": dict(agg=1.0, vs=0.15, conv=0.0, tight=0.15),
}


def run(chk, pid=None, n=(800, 10000)):
    pid = pid or chk.pid
    rng = chk.rng
    cases = []
    while len(cases) < chk.n(*n):
        kw = dict(MIX[pid])
        kw["big"] = kw.get("big", False) and rng.random() < 0.5
        if pid == "C07":
            kw["nsto"] = rng.choice([1, 2, 3])
        c = nets.gen_net(rng, **kw)
        if pid == "C08" and not c["vs"] or pid == "C11" and not c["agg"] or pid == "C13" and not c["cmp"]:
            continue
        cases.append(c)
    traces = chk.run_cases(nets.play, cases)
    chk.validate("TraceNetwork", cases, traces, extra={"want": [pid]}, what="network", chunks=6)
    ends = [t["ev"][-1]["k"] for t in traces if "ev" in t]
    steps = [e for t in traces if "ev" in t for e in t["ev"] if e["k"] == "step"]
    chk.extra["steps"], chk.extra["steps_with_certificate"] = len(steps), sum(e["cert"] for e in steps)
    chk.extra["runs_ending_infeasible"] = sum(1 for k in ends if k == "fail")
    for c in cases[:3]:
        chk.sample({"kinds": [d["k"] for d in c["nodes"]], "edges": c["edges"], "solver": c["solver"], "args": c["args"], "steps": c["T"]})
    return cases, traces
