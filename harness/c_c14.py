"""C14: enumeration of ensemble combinations (every case TLC enumerates) and isolation: each combination's column of a random
world equals a scenario-free build with that combination's data, and a run of that combination alone."""
import copy, random
from common import q
import worlds as W
from c_c04 import qrow
from pywr.core import Model, Scenario, Input, Output
import numpy as np

NONE = 99


def py(v):
    return None if v == NONE else v


def enum_case(case):
    ev = []
    for x in case["items"]:
        m = Model(start="2015-01-01", end="2015-01-02")
        i, o = Input(m, "i", max_flow=1.0), Output(m, "o", max_flow=1.0)
        i.connect(o)
        for k, (n, s) in enumerate(zip(x["sizes"], x["slices"])):
            sl = slice(py(s["a"]), py(s["b"]), py(s["st"]))
            kw = {} if sl == slice(None) and k == 0 else {"slice": sl}
            Scenario(m, "s%d" % k, size=n, ensemble_names=[str(10 * (k + 1) + j) for j in range(n)], **kw)
        combos = x.get("combos") or []
        if combos:
            try:
                m.scenarios.user_combinations = combos
                refused = False
            except ValueError:
                refused = True
            ev.append({"k": "invalid", "sizes": x["sizes"], "combos": combos, "refused": refused})
            if refused:
                continue
        e = {"k": "enum", "sizes": x["sizes"], "slices": x["slices"], "combos": combos, "refused": False,
             "got": [], "ids": [], "shape": [], "labels": [], "n": 0}
        try:
            m.setup()
            cs = m.scenarios.combinations
            e["got"] = [[int(a) for a in c.indices] for c in cs]
            e["ids"] = [int(c.global_id) for c in cs]
            e["shape"] = [int(a) for a in m.scenarios.shape]
            e["labels"] = [[int(a) for a in t] for t in m.scenarios.multiindex] if x["sizes"] else []
            m.step()
            e["n"] = len(o.flow)
        except ValueError:
            e["refused"] = True
        ev.append(e)
    return {"ev": ev, "labels": []}


def final(w, s):
    out = {}
    for r in w.recs:
        v = W.rec_values(r)
        out["rec:%s:%s" % (r.name, type(r).__name__)] = {"v": [q(x) for x in v["v"][s]] if v["v"] else [], "e": [q(x, 1) for x in v["e"][s]] if v["e"] else []}
    return out


def iso_case(case):
    rng = random.Random(case["seed"])
    cs, cfg = case["world"], case["cfg"]
    w = W.build(cs, cfg)
    w.m.run()
    full = [qrow(a) for a in w.obs.rows]
    ev = []
    cc = W.combos(cs, cfg)
    pick = list(range(len(cc)))
    if len(pick) > 3:
        pick = sorted(rng.sample(pick, 3))
    for n, s in enumerate(pick):
        idx = cc[s]
        alts = [W.build(cs, cfg, solo=idx)]
        if n == 0:
            c1 = copy.deepcopy(cfg)
            c1["select"] = ["combos", [list(idx)]]
            alts.append(W.build(cs, c1))
        for v in alts:
            v.m.run()
            ev.append({"k": "steps", "a": len(full), "b": len(v.obs.rows)})
            for t in range(len(full)):
                ev.append({"k": "iso", "a": full[t][s], "b": qrow(v.obs.rows[t])[0]})
            ev.append({"k": "rec", "a": final(w, s), "b": final(v, 0)})
    return {"ev": ev, "labels": W.labels(w)}


def gen(rng):
    world, cfg = W.gen_case(rng, scen=rng.choice([1, 1, 2]))
    return {"seed": rng.randrange(10 ** 9), "world": world, "cfg": cfg}


def run(chk):
    items = chk.generate("MCScenarios")
    rng = chk.rng
    for _ in range(chk.n(200, 2000)):     # explicit combinations, valid and not
        sizes = [rng.randrange(1, 5) for _ in range(rng.randrange(1, 4))]
        combos = [[rng.randrange(-1 if rng.random() < .1 else 0, n + (rng.random() < .1)) for n in sizes] for _ in range(rng.randrange(1, 5))]
        items.append({"sizes": sizes, "slices": [{"a": rng.choice([NONE, 0, 1]), "b": NONE, "st": NONE} for _ in sizes], "combos": combos})
    cases = [{"items": items[i:i + 40]} for i in range(0, len(items), 40)]
    chk.validate("TraceScenarios", cases, chk.run_cases(enum_case, cases), what="enumeration")
    chk.extra["enumerated_selections"] = len(items)
    cases = [gen(rng) for _ in range(chk.n(110, 2500))]
    chk.validate("TraceScenarios", cases, chk.run_cases(iso_case, cases), what="isolation", chunks=6)
    for c in cases[:3]:
        chk.sample({"features": [W.FEATURES[f].__name__ for f in c["world"]["features"]], "sizes": c["world"]["sizes"], "select": c["cfg"]["select"]})
