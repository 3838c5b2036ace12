"""C29: schematics against Schematic.tla"""
import ast, copy, json, os, random, re, shutil, warnings
from pywr.core import Model
import pywr.nodes, pywr.domains.river, pywr.domains.groundwater, pywr.recorders
from pywr.nodes import NodeMeta
from pywr._core import VirtualStorage, AggregatedNode, AggregatedStorage
import pywr.notebook as nb

SOURCES = ["input", "catchment", "discharge"]
SINKS = ["output"]
MID = ["link", "river", "rivergauge", "piecewiselink", "multisplitlink", "riversplit", "riversplitwithgauge", "breaklink", "delaynode", "losslink", "storage", "reservoir", "keatingaquifer"]
OTHER = ["aggregatednode", "aggregatedstorage", "virtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage", "rollingvirtualstorage", "shadownode", "shadowstorage"]
SPLIT = ["multisplitlink", "riversplit", "riversplitwithgauge"]
SPELL = {t: NodeMeta.node_registry[t].__name__ for t in SOURCES + SINKS + MID + OTHER}


def spelled(rng, t):
    return rng.choice([t, SPELL[t], t.upper()])


def given(rng, t, n, case):
    """a node of a document"""
    d = {"name": n, "type": spelled(rng, t)}
    pipes = [x["name"] for x in case["nodes"] if x["type"].lower() in ("link", "input", "river")]
    stores = [x["name"] for x in case["nodes"] if x["type"].lower() == "storage"]
    par = lambda: rng.choice(["p1", "p2", "p3", 5.0, 2, {"type": "constant", "value": 3.0}, {"type": rng.choice(["monthlyprofile", "MonthlyProfile"]), "values": [1.0] * 12}, None])
    if t in ("input", "output", "link", "river", "breaklink"):
        for k in ("max_flow", "min_flow", "cost"):
            if rng.random() < .4:
                d[k] = (par() or (None if k == "max_flow" else 0.0)) if k != "min_flow" else rng.choice([0.0, "p0"])
    elif t in ("catchment", "discharge"):
        d["flow"] = rng.choice([3.0, "p1"])
    elif t in ("storage", "reservoir"):
        d.update(max_volume=rng.choice([10.0, "p3", "p4"]), initial_volume=2.0)
        if d["max_volume"] == "p3":
            d["initial_volume_pc"] = 0.2
    elif t == "rivergauge":
        d.update(mrf=rng.choice([1.0, "p1"]), mrf_cost=-10.0, cost=0.0)
    elif t == "piecewiselink":
        d.update(nsteps=2, max_flows=[1.0, rng.choice(["p2", 3.0])], costs=[-1.0, 0.0])
    elif t == "multisplitlink":
        d.update(nsteps=1, max_flows=[5.0], costs=[0.0], extra_slots=2, slot_names=["one", "two", "three"], factors=[1, 2, 3])
    elif t == "riversplit":
        d.update(factors=[2.0, 1.0], slot_names=["one", "two"])
    elif t == "riversplitwithgauge":
        d.update(mrf=1.0, mrf_cost=-5.0, factors=[2.0, 1.0], slot_names=["one", "two"])
    elif t == "delaynode":
        d.update(timesteps=2, initial_flow=0.0)
    elif t == "losslink":
        d.update(loss_factor=rng.choice([.1, "p5"]))
    elif t == "keatingaquifer":
        d.update(num_streams=1, num_additional_inputs=1, stream_flow_levels=[[1.0]], transmissivity=[10.0], coefficient=1.0, levels=[0.0, 10.0], volumes=[0.0, 5.0], initial_volume=1.0)
    elif t in ("aggregatednode", "virtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage", "rollingvirtualstorage"):
        if not pipes:
            return None
        d["nodes"] = rng.sample(pipes, rng.randrange(1, len(pipes) + 1))
        if t == "aggregatednode":
            d.update(max_flow=par() or 1.0)
        else:
            d.update(factors=[1.0] * len(d["nodes"]), max_volume=10.0, initial_volume=3.0)
        if t == "seasonalvirtualstorage":
            d.update(reset_day=1, reset_month=3, end_day=1, end_month=9)
        if t == "monthlyvirtualstorage":
            d.update(months=2)
        if t == "rollingvirtualstorage":
            d.update(timesteps=3)
    elif t == "aggregatedstorage":
        if not stores:
            return None
        d["storage_nodes"] = rng.sample(stores, rng.randrange(1, len(stores) + 1))
    elif t == "shadownode":
        if not pipes:
            return None
        d["node"] = rng.choice(pipes)
    elif t == "shadowstorage":
        if not stores:
            return None
        d["dmy"] = 1
    c = rng.random()
    if t not in ("shadownode", "shadowstorage"):
        if c < .5:
            d["position"] = {"schematic": [rng.randrange(-50, 50), rng.randrange(-50, 50)]}
            if rng.random() < .4:
                d["position"]["geographic"] = [1, 2]
        elif c < .6:
            d["position"] = {"geographic": [3, 4]}
        elif c < .65:
            d["position"] = {}
    if rng.random() < .2 and t in ("input", "output", "link", "storage"):
        d["comment"] = rng.choice(["p1", "say \"so\"", "it's", "x"])
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def gen(rng):
    case = {"seed": rng.randrange(1 << 30), "nodes": [], "edges": [], "pars": rng.random() < .85}
    names = rng.sample(["A", "B", "in", "Out", "a", "p1", "mid stream", "x.y", "b", "n1", "n2", "n10", "Z"], rng.randrange(2, 9))
    while not case["nodes"]:
        for n in names:
            t = rng.choice(SOURCES + SINKS + ["link"] * 2 + MID) if rng.random() < .75 else rng.choice(OTHER)
            if t in ("shadownode", "shadowstorage"):
                continue
            d = given(rng, t, n, case)
            if d:
                case["nodes"].append(d)
    if not case["pars"]:
        for d in case["nodes"]:
            for k, v in d.items():
                if k in ("max_flow", "min_flow", "cost", "flow", "max_volume", "mrf", "loss_factor") and isinstance(v, str):
                    d[k] = .5 if k == "loss_factor" else 1.0
                elif k == "max_flows":
                    d[k] = [1.0 if isinstance(x, str) else x for x in v]
    typ = {d["name"]: d["type"].lower() for d in case["nodes"]}
    a = [n for n, t in typ.items() if t not in SINKS + OTHER]
    b = [n for n, t in typ.items() if t not in SOURCES + OTHER]
    used = set()
    for _ in range(rng.randrange(0, 2 * len(names) + 2)):
        if not a or not b:
            break
        x, y = rng.choice(a), rng.choice(b)
        if x == y or (x, y) in used or typ[y] == "keatingaquifer":
            continue
        if typ[x] in SPLIT or typ[x] == "keatingaquifer":
            slots = {"multisplitlink": ["one", "two", "three"], "keatingaquifer": [0, 1]}.get(typ[x], ["one", "two"])
            used.add((x, y))
            case["edges"].append([x, y, rng.choice(slots), None] if typ[x] != "keatingaquifer" else [x, y, rng.choice(slots), None])
        else:
            used.add((x, y))
            case["edges"].append([x, y] + rng.choice([[], [], [], [None, None]]))
    rng.shuffle(case["nodes"]) if rng.random() < .5 else None
    case["edits"] = rng.randrange(0, 5)
    case["attrs"] = rng.random() < .5
    return case


PARS = {"p0": {"type": "constant", "value": 0.0}, "p1": {"type": "constant", "value": 4.0}, "p2": {"type": "monthlyprofile", "values": [1.0] * 12}, "p3": {"type": "aggregated", "agg_func": "sum", "parameters": ["p1", "p2"]},
        "p4": {"type": "ConstantParameter", "value": 40.0}, "p5": {"type": "constant", "value": 0.25}}
CLS = {"p0": "ConstantParameter", "p1": "ConstantParameter", "p2": "MonthlyProfileParameter", "p3": "AggregatedParameter", "p4": "ConstantParameter", "p5": "ConstantParameter", "constant": "ConstantParameter", "monthlyprofile": "MonthlyProfileParameter"}


def described(case, d, new=False):
    cls = NodeMeta.node_registry[d["type"].lower()]
    out = {"name": d["name"], "virtual": issubclass(cls, (VirtualStorage, AggregatedNode, AggregatedStorage)), "cls": cls.__name__.lower(), "ancestors": [c.__name__.lower() for c in cls.__mro__],
           "pos": list(map(int, d.get("position", {}).get("schematic", []))), "attrs": [], "held": []}
    for k, v in d.items():
        if k == "type":
            continue
        if isinstance(v, dict):
            a = {"name": k, "how": "inline", "text": "", "cls": CLS[v["type"].lower()]} if "type" in v else {"name": k, "how": "plain", "text": repr(v), "cls": ""}
        elif isinstance(v, str) and v in PARS and case["pars"]:
            a = {"name": k, "how": "ref", "text": v, "cls": CLS[v]}
        else:
            a = {"name": k, "how": "plain", "text": str(v), "cls": ""}
        out["attrs"].append(a)
        if k == "name":
            out["held"].append({"name": k, "how": "plain", "text": v, "cls": ""})
        elif k in ("max_flow", "cost") and d["type"].lower() in ("input", "output", "link", "river"):
            if a["how"] == "inline":
                a = dict(a, how="plain", text=a["cls"])
            elif a["how"] == "plain" and isinstance(v, (int, float)):
                a = dict(a, text=str(float(v)))
            else:
                a = dict(a)
            if v is not None:
                out["held"].append(a)
    return out


def drawn(x, **kw):
    e = dict({"k": "draw", "ok": True, "nodes": [], "links": [[int(l["source"]), int(l["target"])] for l in x["links"]]}, **kw)
    for n in x["nodes"]:
        at = [[a["attribute"], a["value"] if isinstance(a["value"], str) else repr(a["value"])] for a in n.get("attributes", [])]
        e["nodes"].append({"name": n["name"], "clss": list(n["clss"]), "pos": [int(p) for p in n.get("position", [])], "attrs": at})
    return e


def draw(f, **kw):
    try:
        return drawn(f(), **kw)
    except Exception as x:
        return dict({"k": "draw", "ok": False, "nodes": [], "links": [], "why": repr(x)[:200]}, **kw)


def page(path, what, attrs, labels):
    s = nb.PywrSchematic(what, attributes=attrs, labels=labels)
    s.to_html(path)
    text = open(path).read()
    m = re.search(r"const graph = (\{.*\});", text)
    return ast.literal_eval(m.group(1))


def play(case):
    rng = random.Random(case["seed"])
    doc = {"metadata": {"title": "t"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-02", "timestep": 1}, "solver": {"name": "glpk"}, "nodes": copy.deepcopy(case["nodes"]), "edges": copy.deepcopy(case["edges"])}
    if case["pars"]:
        doc["parameters"] = copy.deepcopy(PARS)
    at = case["attrs"]
    base = os.path.join(os.getcwd(), "sch%d" % case["seed"])
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    tr = {"nodes": [described(case, d) for d in case["nodes"]], "edges": [e[:2] for e in case["edges"]], "ev": []}
    ev = tr["ev"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = os.path.join(base, "m.json")
            json.dump(doc, open(p, "w"))
            before = copy.deepcopy(doc)
            for how in rng.sample(["dict", "file", "page", "object"], 2):
                kw = {"from": "document", "attrs": at}
                if how == "page":
                    ev.append(draw(lambda: page(os.path.join(base, "m.html"), rng.choice([doc, p]), at, rng.random() < .5), **kw))
                elif how == "object":
                    ev.append(draw(lambda: nb.PywrSchematic(doc, attributes=at).graph, **kw))
                else:
                    ev.append(draw(lambda: nb.pywr_json_to_d3_json(doc if how == "dict" else p, at), **kw))
            assert doc == before
            m = Model.load(p)
            model = lambda: draw(lambda: page(os.path.join(base, "m.html"), m, at, False) if rng.random() < .2 else nb.pywr_model_to_d3_json(m, at), **{"from": "model", "attrs": at})
            ev.append(model())
            typ = {d["name"]: d["type"].lower() for d in case["nodes"]}
            plain = lambda n: typ[n] not in SPLIT + ["keatingaquifer"]
            edges = [e[:2] for e in case["edges"]]
            for i in range(case["edits"]):
                c = rng.random()
                cuts = [e for e in edges if plain(e[0]) and plain(e[1])]
                if c < .4 and cuts:
                    e = rng.choice(cuts)
                    m.nodes[e[0]].disconnect(m.nodes[e[1]])
                    edges.remove(e)
                    ev.append({"k": "disconnect", "edge": e})
                elif c < .5:
                    n = rng.choice([x for x in typ])
                    if len(typ) < 2:
                        continue
                    del m.nodes[n]
                    del typ[n]
                    edges = [e for e in edges if n not in e]
                    ev.append({"k": "remove", "name": n})
                elif c < .8:
                    a = [n for n, t in typ.items() if t not in SINKS + OTHER + SPLIT + ["keatingaquifer"]]
                    b = [n for n, t in typ.items() if t not in SOURCES + OTHER + ["keatingaquifer"]]
                    a, b = (rng.choice(a), rng.choice(b)) if a and b else (None, None)
                    if a is None or a == b or [a, b] in edges:
                        continue
                    m.nodes[a].connect(m.nodes[b])
                    edges.append([a, b])
                    ev.append({"k": "connect", "edge": [a, b]})
                else:
                    t = rng.choice(["link", "output", "storage", "breaklink", "river"])
                    d = {"name": "new%d" % i, "type": t}
                    cls = NodeMeta.node_registry[t]
                    cls(m, name=d["name"], **({"max_volume": 4.0} if t == "storage" else {}))
                    typ[d["name"]] = t
                    ev.append({"k": "add", "node": described(case, d)})
                ev.append(model())
            return tr
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(chk):
    chk.model_check("MCSchematic", None if chk.quick else "MCSchematicFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(300, 6000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceSchematic", cases, traces, what="schematic", chunks=6)
    kinds = {}
    for c in cases:
        for d in c["nodes"]:
            t = d["type"].lower()
            kinds[t] = kinds.get(t, 0) + 1
    chk.extra["node types"] = kinds
    for c in cases[:2]:
        chk.sample({"nodes": [(d["name"], d["type"]) for d in c["nodes"]], "edges": c["edges"]})
