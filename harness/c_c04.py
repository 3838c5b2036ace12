"""C04: histories of calls (enumerated by TLC) on models with memory of every kind; each run is compared with a freshly built model."""
import copy, datetime, random
from common import q
import worlds as W


def qrow(a):
    return [[q(x) for x in r] for r in a]


def final(w):
    out = {}
    for r in w.recs:
        v = W.rec_values(r)
        out["rec:%s:%s" % (r.name, type(r).__name__)] = {"v": [[q(x) for x in s] for s in v["v"]], "e": [[q(x, 1) for x in s] for s in v["e"]]}
    return out


def run_case(case):
    rng = random.Random(case["seed"])
    cs, cfgs = case["world"], case["cfgs"]
    refs = []
    for cfg in cfgs:
        w = W.build(cs, cfg)
        w.m.run()
        refs.append({"rows": [qrow(a) for a in w.obs.rows], "final": final(w)})
    w = W.build(cs, cfgs[0])
    ev = []
    cur, stale, pos = 0, True, 0
    for o in case["ops"]:
        n = len(refs[cur]["rows"])
        if o[0] == "change":
            d = o[1] - 1
            a, b = cfgs[cur], cfgs[d]
            period = any(a[x] != b[x] for x in ("start", "end", "select"))
            W.reconfigure(w, b)
            ev.append({"k": "change", "d": d + 1, "period": period})
            cur, stale = d, stale or period
        elif o[0] == "reset":
            if stale:
                continue
            w.m.reset()
            ev.append({"k": "reset"})
            w.obs.rows, pos = [], 0
        elif o[0] == "step":
            if not stale and (pos >= n or ev[-1]["k"] == "change"):     # (changed inputs count from the next run or reset)
                continue
            w.m.step()
            pos = 1 if stale else pos + 1
            stale = False
            ev.append({"k": "step", "row": qrow(w.obs.rows[-1])})
            if pos == n and o[1:]:
                try:
                    w.m.step()
                    ev.append({"k": "step", "row": []})
                except StopIteration:
                    pass
                w.m.finish()
                ev.append({"k": "finish", "final": final(w)})
        else:
            w.obs.rows = []
            w.m.run()
            pos, stale = n, False
            ev.append({"k": "run", "rows": [qrow(a) for a in w.obs.rows], "final": final(w)})
    return {"refs": refs, "labels": W.labels(w), "ev": ev, "tol": 2}


def gen(rng, hist):
    world, cfg = W.gen_case(rng)
    cfgs = [cfg]
    w = W.build(world, cfg)
    names = sorted(w.knobs)
    for k in names:
        cfg["knobs"][k] = w.knobs[k][1]()
    for i in range(2):
        c = copy.deepcopy(cfg)
        for k in names:
            if rng.random() < 0.7:
                c["knobs"][k] = w.knobs[k][1]()
        if i == 1:     # another period or other scenarios
            r = rng.random()
            if world["sizes"] and r < 0.4:
                c["select"] = W.gen_select(rng, world["sizes"])
            if r > 0.3:
                s = datetime.date.fromisoformat(cfg["start"]) + datetime.timedelta(days=rng.choice([0, 1, 15]))
                n = rng.randrange(2, 8)
                c["start"], c["end"] = s.isoformat(), (s + datetime.timedelta(days=n * world["step"] - 1)).isoformat()
        else:
            c["start"], c["end"], c["select"] = cfg["start"], cfg["end"], cfg["select"]
        cfgs.append(c)
    ops = []
    for o in hist:
        if o[0] == "step" and rng.random() < 0.5:
            ops += [["step"]] * rng.randrange(1, 4)
        ops.append(o)
    if rng.random() < 0.3:
        ops += [["reset"]] + [["step", 1]] * 12
    return {"seed": rng.randrange(10 ** 9), "world": world, "cfgs": cfgs, "ops": ops}


def run(chk):
    hist = [h for h in chk.generate("MCRerun") if sum(o[0] in ("run", "step") for o in h) >= 2]
    cases = []
    n = chk.n(130, 2500)
    while len(cases) < n:
        cases.append(gen(chk.rng, chk.rng.choice(hist)))
    traces = chk.run_cases(run_case, cases)
    chk.validate("TraceRerun", cases, traces, chunks=6)
    chk.extra["histories_generated"] = len(hist)
    for c in cases[:3]:
        chk.sample({"ops": c["ops"], "features": [W.FEATURES[f].__name__ for f in c["world"]["features"]], "cfgs": c["cfgs"]})
