"""C25: documents of random models, each written in several ways, are loaded; what arises is compared with Document.tla and with the model
built by code.  Flawed documents have to be refused."""
import copy, hashlib, json, os, random
import numpy as np
import pandas as pd
from common import q
import docs as D
import worlds as W
from pywr.model import Model
from pywr.core import Scenario
from pywr._component import Component
from pywr._core import AbstractNode
from pywr.recorders import Recorder

SKIP = {"model", "parents", "data", "results", "events", "memo", "allow_isolated"}


def tok(v, deep=3):
    """a value as text, by what it is rather than which object"""
    if v is None or isinstance(v, (bool, str)):
        return repr(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return "%.9g" % float(v)
    if isinstance(v, Component):
        return v.name if v.name else ("<%s>" % type(v).__name__ if deep <= 0 else "<%s %s>" % (type(v).__name__, json.dumps(describe(v, deep - 1), sort_keys=True)))
    if isinstance(v, AbstractNode):
        return "node:%s" % v
    if isinstance(v, Scenario):
        return "scenario:%s" % v.name
    if isinstance(v, np.ndarray):
        return tok(v.tolist() if v.ndim else float(v), deep)
    if isinstance(v, memoryview) or type(v).__name__ in ("memoryview", "_memoryviewslice"):
        return tok(np.asarray(v), deep)
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(tok(x, deep) for x in v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ",".join(sorted(tok(x, deep) for x in v))
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (k, tok(v[k], deep)) for k in sorted(v, key=str))
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return "frame:[%s] at %s" % (tok(v.values, deep), ",".join(str(x) for x in v.index))
    if callable(v):
        return getattr(v, "__name__", type(v).__name__)
    return type(v).__name__


def describe(o, deep=3):
    """all that can be seen of an object before it is used"""
    out = {"class": type(o).__name__}
    for k in dir(o):
        if k.startswith("_") or k in SKIP or k in out:
            continue
        if deep < 3 and k == "children":
            continue
        try:
            v = getattr(o, k)
        except Exception as e:
            out[k] = "!" + type(e).__name__
            continue
        if callable(v) and not isinstance(v, (Component, AbstractNode)):
            continue
        if k == "recorders" and isinstance(o, AbstractNode) or k == "nodes" and isinstance(v, list) and isinstance(o, Recorder):
            out[k] = "{%s}" % ",".join(sorted(getattr(x, "name", x) for x in v))      # the order follows that of the document
        elif k == "children":
            out[k] = "{%s}" % ",".join(sorted(tok(x, 2) for x in v))
        else:
            out[k] = tok(v, deep)
    return out


def short(s):
    return s if len(s) <= 40 else s[:20] + "#" + hashlib.md5(s.encode()).hexdigest()[:10]


# ------------------------------------------------------------------------------------------------ what TLC is told of a document
def abstract(case):
    out = []

    def refs(v, acc, owner):
        if isinstance(v, list):
            for x in v:
                refs(x, acc, owner)
        elif isinstance(v, dict) and "$" in v:
            k = v["$"]
            if k in ("p", "r"):
                acc.append({"node": False, "name": v["n"], "own": 0})
            elif k == "n":
                acc.append({"node": True, "name": v["n"], "own": 0})
            elif k == "q":
                acc.append({"node": False, "name": "", "own": define(v["d"], True)})

    def define(d, inline):
        i = len(out)
        out.append(None)
        make, finish = [], []
        for k, v in d["opts"].items():
            acc = []
            refs(v, acc, i)
            for r in acc:
                (finish if d["kind"] == "node" and not r["node"] else make).append(r)
        out[i] = {"name": d["name"] or "", "node": d["kind"] == "node", "inline": inline, "sound": not (d.get("unknown") or d.get("extra")), "make": make, "finish": finish}
        return i + 1
    for d in case["nodes"] + case["comps"]:
        define(d, False)
    return out


def named(case):
    return [(d["kind"], d["name"]) for d in case["nodes"] + case["comps"]]


class Probe(Recorder):
    def __init__(self, model):
        self.rows, self.labels = [], []
        super().__init__(model, name="zzz probe")
        self.nodes_ = sorted((n for n in model.nodes if hasattr(n, "flow")), key=str)
        self.comps_ = sorted((p for p in model.parameters if p.name), key=lambda p: p.name)

    def after(self):
        n = len(self.model.scenarios.combinations)
        seen = []
        for x in self.nodes_:
            seen.append((str(x) + ".flow", x.flow))
            if hasattr(x, "volume"):
                seen.append((str(x) + ".volume", x.volume))
        for p in self.comps_:
            seen.append((p.name + ".value", p.get_all_values()))
            if hasattr(p, "get_all_indices"):
                seen.append((p.name + ".index", p.get_all_indices()))
        self.labels = [a for a, _ in seen]
        vals = [np.asarray(v) for _, v in seen]
        self.rows.append([[q(v[s] if s < len(v) else float("nan")) for v in vals] for s in range(n)])


def order(m, case):
    """the order in which the components of the document were made"""
    names = {d["name"] for d in case["comps"]}
    return [c.name for c in m.component_graph.nodes() if isinstance(c, Component) and c.name in names]


def observe(m, case, run):
    nodes = {d["name"]: d for d in case["nodes"]}
    comps = {d["name"]: d for d in case["comps"]}
    attrs = {}
    for n in m.nodes:
        attrs["node %s" % n] = describe(n)
    for c in list(m.parameters) + list(m.recorders):
        if c.name:
            attrs["component %s" % c.name] = describe(c)
    attrs["model"] = {"start": str(m.timestepper.start), "end": str(m.timestepper.end), "delta": str(m.timestepper.delta), "solver": m.solver.name, "metadata": tok(m.metadata),
                      "scenarios": tok([[s.name, s.size, str(s.slice), tok(s.ensemble_names)] for s in m.scenarios.scenarios]),
                      "combinations": tok(m.scenarios.user_combinations if m.scenarios.user_combinations is not None else []),
                      "edges": tok(sorted("%s>%s" % (a, b) for a, b in m.edges()))}
    attrs = {k: {x: short(y) for x, y in v.items()} for k, v in attrs.items()}
    kids = {c.name: sorted(x.name for x in c.children if x.name) for c in list(m.parameters) + list(m.recorders) if c.name in comps}
    ev = {"order": order(m, case), "nodes": sorted(n.name for n in m.nodes), "comps": sorted(c.name for c in list(m.parameters) + list(m.recorders) if c.name),
          "attrs": attrs, "kids": kids, "rows": [], "final": {}, "labels": []}
    if run:
        p = Probe(m)
        try:
            m.run()
            ev["ran"] = "ok"
        except Exception as e:
            ev["ran"] = type(e).__name__
            if os.environ.get("WHY"):
                import traceback
                print("RUN", " | ".join(" ".join(x.split())[-150:] for x in traceback.format_exception(e)[-3:]))
        ev["rows"], ev["labels"] = p.rows, p.labels
        if ev["ran"] == "ok":
            for r in m.recorders:
                if r is not p and type(r).__name__ not in ("CSVRecorder", "TablesRecorder", "TablesRecorder2"):
                    try:
                        v = [q(x) for x in np.asarray(r.values(), dtype=float).flatten()]
                    except Exception as e:
                        v = [len(type(e).__name__)]
                    try:
                        v.append(q(r.aggregated_value()))
                    except Exception as e:
                        v.append(0)
                    ev["final"][r.name] = v
    return ev


# ------------------------------------------------------------------------------------------------ ways of loading
def split(doc, rng, folder, mixed):
    """parts of the document in included files"""
    inc = {}
    for key in ("parameters", "recorders", "tables"):
        for n in list(doc.get(key, {})):
            if rng.random() < .3:
                inc.setdefault(key, {})[n] = doc[key].pop(n)
        if key in doc and not doc[key] and rng.random() < .5:
            del doc[key]
    for key in ("nodes", "edges") if mixed else ():
        part = [rng.random() < .3 for x in doc[key]]
        if any(part) and rng.random() < .6:
            inc[key] = [x for x, y in zip(doc[key], part) if y]
            doc[key] = [x for x, y in zip(doc[key], part) if not y]
    if inc:
        os.makedirs(folder + "/parts", exist_ok=True)
        fn = "parts/inc%d.json" % rng.randrange(1000)
        json.dump(inc, open(folder + "/" + fn, "w"))
        doc["includes"] = [fn]


def load(doc, how, folder):
    if how == "dict":
        before = json.dumps(doc)
        m = Model.load(doc, path=folder + "/")
        if json.dumps(doc) != before:
            raise AssertionError("the document was changed")
        return m
    fn = folder + "/model.json"
    json.dump(doc, open(fn, "w"))
    if how == "file":
        return Model.load(fn)
    if how == "handle":
        with open(fn) as f:
            return Model.load(f, path=folder + "/")
    return Model.loads(json.dumps(doc), path=folder + "/")


def code_extra(case, m):
    """options as given, where the object shows them under the same name"""
    out = []
    for d in case["nodes"] + case["comps"]:
        try:
            o = m.nodes[d["name"]] if d["kind"] == "node" else m.components[d["name"]]
        except KeyError:
            continue
        for k, v in d["opts"].items():
            w = v
            if isinstance(v, dict) and v.get("$") in ("f", "v", "m", "scalar"):
                w = v["v"]
            elif isinstance(v, dict) and v.get("$") in ("p", "r", "n", "s", "q") or isinstance(v, list) and any(isinstance(x, dict) for x in v):
                continue
            if k == "control_curves" or k == "cost" and "above_curve_cost" in d["opts"]:
                continue
            if k in NOTSHOWN.get(d["type"], ()) or k in ("initial_volume",) and d["opts"].get("initial_volume_pc") is not None:
                continue
            if isinstance(w, dict) and k not in ("tags", "position"):
                continue
            try:
                got = getattr(o, k)
            except Exception:
                continue
            if callable(got):
                continue
            out.append([("%s.%s" % (d["type"], k)), short(tok(w)), short(tok(got))])
    return out


# shown in another form
NOTSHOWN = {"riversplit": ("costs",), "multisplitlink": ("costs", "max_flows"), "piecewiselink": ("max_flows",), "numpyarraynode": ("factor",), "catchment": ("flow",),
            "aggregated": ("parameters",)}


def run_case(case):
    folder = os.path.abspath("c25_%d" % case["seed"])
    os.makedirs(folder, exist_ok=True)
    ev = []
    good = not case["flaw"]
    if good:
        b = D.Builder(case, folder)
        o = observe(b.m, case, True)
        ev.append(dict(o, k="code", how="code"))
    for w in case["ways"]:
        rng = random.Random(w["seed"])
        wr = D.Writer(case, rng, folder, w["inline"], w["mixed"])
        doc = wr.document()
        if w["includes"]:
            split(doc, rng, folder, w["mixed"])
        try:
            m = load(doc, w["how"], folder)
        except Exception as e:
            ev.append({"k": "refused", "how": w["how"], "why": ("%s: %s" % (type(e).__name__, e))[:120]})
            continue
        o = observe(m, case, good)
        ev.append(dict(o, k="load", how=w["how"], mixed=w["mixed"], given=code_extra(case, m) if good else []))
    if any(e.get("ran") == "LinAlgError" for e in ev):
        # a density of volumes that (almost) never change is not defined: what it ends with depends on rounding
        for e in ev:
            if "ran" in e:
                e["ran"], e["final"] = "singular", {}
    return {"defs": abstract(case), "ev": ev}


# ------------------------------------------------------------------------------------------------ flaws
def walk(v, f):
    """change references in place"""
    if isinstance(v, list):
        for i, x in enumerate(v):
            y = f(x)
            if y is not None:
                v[i] = y
                return True
            if walk(x, f):
                return True
    elif isinstance(v, dict):
        for k in list(v):
            y = f(v[k])
            if y is not None:
                v[k] = y
                return True
            if walk(v[k], f):
                return True
    return False


def reaches(case, a):
    """what component a needs"""
    defs = {d["name"]: d for d in case["comps"]}
    seen, todo = set(), [a]
    while todo:
        n = todo.pop()
        if n in seen or n not in defs:
            continue
        seen.add(n)

        def f(x):
            if isinstance(x, dict) and x.get("$") in ("p", "r"):
                todo.append(x["n"])
        walk(defs[n]["opts"], f)
    return seen


def flaw(case, rng):
    kind = rng.choice(["type", "type", "attr", "attr", "attr", "ghost", "ghost", "ghost", "cycle", "cycle", "twin", "twincomp"])
    alld = case["nodes"] + case["comps"]
    anon = []

    def col(x):
        if isinstance(x, dict) and x.get("$") == "q":
            anon.append(x["d"])
    for d in alld:
        walk(d["opts"], col)
    f = {"kind": kind}
    if kind in ("type", "attr"):
        d = rng.choice(rng.choice([x for x in (case["nodes"], case["comps"], anon) if x]))
        f["on"] = d["type"]
        if kind == "type":
            d["type"], d["unknown"] = "nosuchtype", True
        else:
            d["opts"]["no_such_option"] = rng.choice([1, "x", None])
            d["extra"] = True
    elif kind == "ghost":
        ds = [d for d in alld if d["type"] not in ("csv", "tables")]      # which look their nodes up when they are set up
        rng.shuffle(ds)
        skip = rng.randrange(3)
        cnt = [0]

        def g(x):
            if isinstance(x, dict) and x.get("$") in ("p", "r", "n"):
                cnt[0] += 1
                if cnt[0] > skip:
                    return dict(x, n="ghost")
        if not any(walk(d["opts"], g) for d in ds):
            return None
    elif kind == "cycle":
        # a component is given, in place of another, one that needs it
        ps = [d["name"] for d in case["comps"] if d["kind"] == "parameter"]
        rng.shuffle(ps)
        for a in ps:
            above = [n for n in ps if n != a and a in reaches(case, n)] + [a]
            n = rng.choice(above)

            def h(x):
                if isinstance(x, dict) and x.get("$") == "p":
                    return D.P_(n)
            if walk([d for d in case["comps"] if d["name"] == a][0]["opts"], h):
                break
        else:
            return None
    elif kind == "twin":
        d = copy.deepcopy(rng.choice(case["nodes"]))
        case["nodes"].append(d)
        f["name"] = d["name"]
    elif kind == "twincomp":
        if anon and rng.random() < .5:
            rng.choice(anon)["name"] = rng.choice(case["comps"])["name"]
        else:
            ps = [d for d in case["comps"] if d["kind"] == "parameter"]
            rs = [d for d in case["comps"] if d["kind"] == "recorder"]
            used = json.dumps([x["opts"] for x in alld])
            rs = [r for r in rs if '"n": "%s"' % r["name"] not in used]
            if not ps or not rs:
                return None
            rng.choice(rs)["name"] = rng.choice(ps)["name"]
            for d in case["comps"]:
                d["top"] = True
    return f


def gen(rng, bad=.35):
    while True:
        case = D.gen(rng)
        case["flaw"] = None
        if rng.random() < bad:
            case["flaw"] = flaw(case, rng)
            if not case["flaw"]:
                continue
        n = 2 if case["flaw"] else 3
        case["ways"] = [{"seed": rng.randrange(10 ** 9), "how": rng.choice(["dict", "file", "handle", "loads"]), "inline": rng.random() < .6,
                         "includes": rng.random() < .35, "mixed": rng.random() < .5} for _ in range(n)]
        return case


def run(chk):
    chk.model_check("MCDocument", "MCDocument" if chk.quick else "MCDocumentFull")
    n = chk.n(240, 3000)
    cases = [gen(chk.rng) for _ in range(n)]
    traces = chk.run_cases(run_case, cases)
    kinds = {}
    for c, t in zip(cases, traces):
        if isinstance(t, dict):
            for e in t.get("ev", []):
                if e["k"] in ("code",):
                    kinds["ran:" + e["ran"]] = kinds.get("ran:" + e["ran"], 0) + 1
    chk.extra["outcomes"] = kinds
    chk.extra["flawed"] = sum(1 for c in cases if c["flaw"])
    types = {}
    for c in cases:
        for d in c["nodes"] + c["comps"]:
            types[d["type"]] = types.get(d["type"], 0) + 1
    chk.extra["types"] = types
    chk.validate("TraceDocument", cases, traces, key=key, what="loading from documents")


def key(c):
    return "flaw %s" % c["flaw"]["kind"] if c["flaw"] else "document"
