"""C06: cost optimality.  Every tiny network TLC enumerates (with its best cost found by enumeration) is replayed on all back ends;
random networks carry a dual certificate that TLC checks."""
import c_c05
from common import q
from pywr.core import Model, Input, Link, Output, Storage

INF = 2000000000
CONF = [("glpk", {}), ("glpk-edge", {}), ("lpsolve", {}), ("glpk", {"use_presolve": True}), ("glpk-edge", {"use_presolve": True}),
        ("glpk", {"set_fixed_flows_once": True, "set_fixed_costs_once": True}), ("glpk-edge", {"set_fixed_flows_once": True, "set_fixed_costs_once": True}),
        ("glpk", {"use_unsafe_api": True}), ("glpk-edge", {"use_unsafe_api": True})]


def lim(v):
    return float("inf") if v == INF else float(v)


def tiny(case):
    ev = []
    for g in case["items"]:
        for name, args in case["conf"]:
            m = Model(solver=name, start="2015-01-01", end="2015-01-01", **({"solver_args": args} if args else {}))
            t = g["topo"]
            objs = []
            for i, k in enumerate(t["kind"]):
                n = "n%d" % i
                if k == "sto":
                    lo, hi = -g["slo"][i], g["shi"][i]
                    has_in = any(v == i + 1 for u, v in t["edges"])
                    has_out = any(u == i + 1 for u, v in t["edges"])
                    objs.append(Storage(m, n, max_volume=lo + hi, initial_volume=lo, cost=g["c"][i], outputs=1 if has_in else 0, inputs=1 if has_out else 0))
                else:
                    objs.append({"in": Input, "link": Link, "out": Output}[k](m, n, min_flow=lim(g["lo"][i]), max_flow=lim(g["hi"][i]), cost=g["c"][i]))
            for u, v in t["edges"]:
                objs[u - 1].connect(objs[v - 1])
            e = {"k": "tiny", "best": g["best"], "want": g["flows"], "kind": t["kind"], "c": g["c"], "failed": False, "flow": []}
            try:
                m.run()
                e["flow"] = [q(float(o.flow[0])) for o in objs]
            except Exception:
                e["failed"] = True
            ev.append(e)
    return {"ev": ev}


def run(chk):
    items = chk.generate("MCNetwork", None if chk.quick else "MCNetworkFull", workers=6)
    confs = CONF if not chk.quick else None
    cases = []
    for i in range(0, len(items), 40):
        conf = confs or CONF[:3] + [CONF[3 + (i // 40) % 6]]
        cases.append({"items": items[i:i + 40], "conf": [list(x) for x in conf]})
    chk.validate("TraceTiny", cases, chk.run_cases(tiny, cases), what="tiny networks")
    chk.extra["tiny_networks"] = len(items)
    c_c05.run(chk, n=(400, 8000))
