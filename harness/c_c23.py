"""C23: output files against Stored.tla"""
import bz2, csv, datetime, gzip, os, random, warnings
import numpy as np
import tables
from common import q, SOLVERS
from c_c15 import near
from c_c16 import members_
from c_c17 import Tab, XTab
from c_c20 import e8
from c_c21 import steps, final
from pywr.core import Model, Input, Output, Link, Storage, Scenario, AggregatedNode, AggregatedStorage, VirtualStorage
from pywr.nodes import PiecewiseLink
from pywr.parameters import Parameter
import pywr.recorders as R

FLOWS = ["a", "bb", "c", "i2", "out", "g"]
STORES = ["st", "s2", "vs", "ag"]
NODES = FLOWS + STORES
PARS = ["p0", "pp1", "p/2"]
SER = ["flow:" + n for n in FLOWS] + [k + ":" + n for n in STORES for k in ("vol", "max", "min")] + ["max:" + n for n in FLOWS] + ["min:" + n for n in FLOWS] + ["par:" + n for n in PARS] + ["idx:x0", "net:st", "net:s2"]
ID = {n: i + 1 for i, n in enumerate(SER)}
NAMED = [["wet", "dry", "mid"], ["hi", "lo", "me"]]


class Bomb(Parameter):
    """breaks a run off at a step"""
    at = None

    def value(self, ts, si):
        if ts.index == self.at:
            raise RuntimeError("bomb")
        return 0.0


def picks(rng, case, kind):
    """nodes and parameters to store: [where or None, name, how]"""
    out = []
    hows = ["name"] if case["json"] else ["name", "object"]
    for n in rng.sample(NODES, rng.randrange(0, 5)):
        w = rng.choice([None, None, "/sub/" + n, "/x_" + n])
        out.append([w, n, rng.choice(hows)])
        if rng.random() < .15:
            out.append(["/twice/" + n, n, rng.choice(hows)])
    ps = []
    for n in rng.sample(PARS + ["x0"], rng.randrange(0, 4)):
        w = rng.choice([None, None, "/pars/" + n.replace("/", "")])
        ps.append([w, n, rng.choice(hows)])
        if rng.random() < .15:
            ps.append(["/twice/q" + n.replace("/", ""), n, rng.choice(hows)])
    return (None if rng.random() < .3 else out), ps


def one(rng, case, i):
    d = {"kind": rng.choice(["t1", "t1", "t2", "t2", "t2", "t2", "csv"])}
    if d["kind"] == "csv":
        d["nodes"] = None if rng.random() < .3 else [[None, n, rng.choice(["name"] if case["json"] else ["name", "object"])] for n in rng.sample(NODES, rng.randrange(1, 5))]
        d["s"] = rng.randrange(case["width"])
        d["complib"] = rng.choice([None, None, "gzip", "bz2", "bzip2"])
        d["csv"] = rng.choice([None, None, {"delimiter": ";"}, {"delimiter": "\t", "lineterminator": "\n"}])
        return d
    d["nodes"], d["pars"] = picks(rng, case, d["kind"])
    d["where"] = rng.choice(["/", "/", "/grp", "/deep/er"])
    d["time"] = rng.choice(["/time"] * 4 + ["/meta/when", ""])
    d["scen"] = rng.choice(["/scenarios"] * 4 + ["/meta/scen", ""])
    d["routes"] = case["solver"] != "glpk-edge" and rng.random() < .35
    d["buffer"] = rng.choice([None, ["n", 1], ["n", 2], ["n", 3], ["n", 4], ["n", 7], ["n", case["runs"][0]["n"]], ["n", 1000], ["mb", 100], ["mb", 0], ["mb", None], ["mb", rng.choice([1, 3, 8]) * case["width"] * 24 / 1048576 * 20]])
    d["title"] = rng.choice([None, "title %d" % i])
    d["meta"] = rng.choice([[], [["who", "me"], ["no", i]]])
    d["legacy"] = rng.random() < .2
    d["file"] = rng.choice(["path", "path", "path", "dirs"] + ([] if case["json"] or len({r["n"] for r in case["runs"]}) > 1 else ["handle"]))
    d["zip"] = rng.choice([None, None, {"complib": "zlib", "complevel": 5}])
    return d


def gen(rng):
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([0, 1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .35 and sizes:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 4))]
    elif c < .65 and sizes:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None], [0, 2, None], [0, 5, 2], [None, None, 2], [-2, None, 1]]) for s in sizes]
    step = rng.choice([1, 1, 2, 7, 45, "W", "M", "Q", "12h", "39h"])
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "seed": rng.randrange(10 ** 6), "solver": rng.choice(SOLVERS), "json": rng.random() < .35, "link": rng.random() < .6,
            "named": rng.random() < .3}
    case["cap"] = 16 if step in (1, 2, "12h", "39h") else 200
    case["width"] = len(members_(case))
    runs, same = [], rng.random() < .6
    for k in range(rng.choice([1, 2, 2, 3])):
        n = rng.randrange(1, 13) if k == 0 or not same else runs[0]["n"]
        a = near(rng, rng.choice([1899, 1999, 2000, 2015, 2016, 2020])).isoformat() if k == 0 or rng.random() < .5 else runs[0]["start"]
        c = rng.random()
        to = "run" if c < .4 else ["bomb", rng.randrange(0, n)] if c < .6 else rng.randrange(1, n + 1)
        runs.append({"start": a, "n": n, "slack": rng.choice([0, 0, rng.randrange(0, 400)]), "restart": rng.randrange(1, n) if n > 1 and isinstance(to, int) and rng.random() < .35 else None, "to": to, "unfinished": False})
    for k, r in enumerate(runs[:-1]):
        r["unfinished"] = isinstance(r["to"], int) and rng.random() < .15
    case["runs"] = runs
    case["recs"] = [one(rng, case, i) for i in range(rng.randrange(1, 4))]
    return case


def tables_(case):
    rng = random.Random(case["seed"])
    n, w = max(r["n"] for r in case["runs"]), case["width"]
    f = lambda lo, hi: [[e8(rng, lo, hi) for _ in range(w)] for _ in range(n)]
    return {"p0": f(0, 3), "pp1": f(0, 3), "p/2": f(0, 2), "m": f(250, 300), "lo": f(0, 1), "x": [[rng.randrange(-2, 5) for _ in range(w)] for _ in range(n)]}


def place(d, it):
    """the path of what is stored"""
    w = it[0] if it[0] else d["where"] + "/" + it[1].replace("/", "_")
    return w.replace("//", "/")


def layout(case, d):
    """the paths of a file's arrays with the series they hold and their attributes"""
    out = []
    for it in ([[None, n, ""] for n in NODES] if d["nodes"] is None else d["nodes"]):
        w, n = place(d, it), it[1]
        k = "vol" if n in STORES else "flow"
        if d["kind"] == "t1":
            out.append([w, ID["%s:%s" % (k, n)], "volume" if n in STORES else "flow"])
        else:
            a = "volume" if n in STORES else "flow"
            out += [[w + "/max_" + a, ID["max:" + n], "max_" + a], [w + "/" + a, ID["%s:%s" % (k, n)], a], [w + "/min_" + a, ID["min:" + n], "min_" + a]]
    for it in d["pars"]:
        w, n = place(d, it), it[1]
        k = "idx" if n == "x0" else "par"
        if d["kind"] == "t1":
            out.append([w, ID["%s:%s" % (k, n)], "parameter-index" if k == "idx" else "parameter"])
        else:
            a = "parameter_index" if k == "idx" else "parameter"
            out.append([w + "/" + a, ID["%s:%s" % (k, n)], a])
    return out


def options(case, d, i, get, m=None):
    if d["kind"] == "csv":
        kw = {"scenario_index": d["s"]} if d["s"] or case["seed"] % 2 else {}
        if d["nodes"] is not None:
            kw["nodes"] = [get(n) if how == "object" else n for _, n, how in d["nodes"]]
        if d["complib"]:
            kw["complib"], kw["complevel"] = d["complib"], 5
        if d["csv"]:
            kw["csv_kwargs"] = d["csv"]
        return kw
    it = lambda w, n, how: (get(n) if how == "object" else n) if w is None else [w, get(n) if how == "object" else n]
    kw = {"where": d["where"], "time": d["time"] or None, "scenarios": d["scen"] or None}
    if d["nodes"] is not None:
        kw["nodes"] = [it(*x) for x in d["nodes"]]
    if d["pars"]:
        kw["parameters"] = [it(*x) for x in d["pars"]]
    if d["routes"]:
        kw["routes_flows"], kw["routes"] = "rf", "/meta/routes"
    if d["kind"] == "t2" and d["buffer"]:
        kw["buffer_timesteps" if d["buffer"][0] == "n" else "buffer_size"] = d["buffer"][1]
    if d["kind"] == "t1" and d["legacy"]:
        kw["use_legacy_attribute_naming"] = True
    if d["title"]:
        kw["title"] = d["title"]
    if d["meta"]:
        kw["metadata"] = dict(d["meta"])
    if d["zip"]:
        kw["filter_kwds"] = d["zip"]
    if d["file"] == "dirs":
        kw["create_directories"] = True
    return kw


def build(case, t, folder):
    run = case["runs"][0]
    start, end = run["start"], final(case, run).isoformat()
    cap = float(case["cap"])
    paths = [os.path.join(folder, "sub%d" % i, "f.h5") if d.get("file") == "dirs" else os.path.join(folder, "f%d.%s" % (i, "csv" if d["kind"] == "csv" else "h5")) for i, d in enumerate(case["recs"])]
    T = {"t1": R.TablesRecorder, "t2": R.TablesRecorder2, "csv": R.CSVRecorder}
    if case["json"]:
        rng = random.Random(case["seed"])
        pars = [(n, {"type": "tab", "rows": t[n]}) for n in PARS + ["m", "lo"]] + [("x0", {"type": "xtab", "rows": t["x"]}), ("bomb", {"type": "bomb"})]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p0"}, {"name": "bb", "type": "Output", "max_flow": "pp1", "cost": -10},
                 {"name": "c", "type": "Link", "max_flow": 2.5} if case["link"] else {"name": "c", "type": "PiecewiseLink", "nsteps": 2, "max_flows": [1.0, None], "costs": [-4, 3]},
                 {"name": "i2", "type": "Input", "max_flow": "pp1", "min_flow": 0.0}, {"name": "out", "type": "Output", "max_flow": "p/2", "cost": -20},
                 {"name": "st", "type": "Storage", "max_volume": cap, "min_volume": 1.0, "initial_volume": cap / 2, "cost": -1},
                 {"name": "s2", "type": "Storage", "max_volume": "m", "min_volume": "lo", "initial_volume": 100.0, "initial_volume_pc": 0.4, "cost": -2},
                 {"name": "vs", "type": "VirtualStorage", "nodes": ["a", "i2"], "factors": [1.0, 0.5], "max_volume": 5000.0, "min_volume": 0.0, "initial_volume": 4000.0},
                 {"name": "g", "type": "AggregatedNode", "nodes": ["a", "i2"], "max_flow": 100.0}, {"name": "ag", "type": "AggregatedStorage", "storage_nodes": ["st", "s2"]}]
        rng.shuffle(nodes)
        recs = []
        for i, d in enumerate(case["recs"]):
            recs.append(("r%d" % i, dict({"type": {"t1": "tables", "t2": "tables2", "csv": "csv"}[d["kind"]] + rng.choice(["", "recorder"]) if d["kind"] != "t2" else rng.choice(["TablesRecorder2", "tablesrecorder2"]), "url": paths[i]}, **options(case, d, i, None))))
        rng.shuffle(recs)
        doc = {"metadata": {"minimum_version": "0.1", "title": "doc title"}, "timestepper": {"start": start, "end": end, "timestep": case["step"]},
               "scenarios": [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {}), **({"ensemble_names": NAMED[i][:s]} if case["named"] else {})) for i, s in enumerate(case["sizes"])],
               "nodes": nodes, "edges": [["a", "c"], ["c", "bb"], ["i2", "st"], ["st", "out"], ["c", "s2"], ["s2", "out"]], "parameters": dict(pars), "recorders": dict(recs)}
        if case["combos"] is not None:
            doc["scenario_combinations"] = case["combos"]
        m = Model.load(doc, solver=case["solver"])
        return m, {k: m.nodes[k] for k in NODES}, m.parameters["bomb"], [m.recorders["r%d" % i] for i in range(len(paths))], paths, []
    m = Model(start=start, end=end, timestep=case["step"], solver=case["solver"])
    m.metadata["title"] = "doc title"
    for i, s in enumerate(case["sizes"]):
        Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None, ensemble_names=NAMED[i][:s] if case["named"] else None)
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    P = {n: Tab(m, t[n], name=n) for n in PARS + ["m", "lo"]}
    P["x0"] = XTab(m, t["x"], name="x0")
    bomb = Bomb(m, name="bomb")
    N = {"a": Input(m, "a", max_flow=P["p0"]), "bb": Output(m, "bb", max_flow=P["pp1"], cost=-10), "i2": Input(m, "i2", max_flow=P["pp1"]), "out": Output(m, "out", max_flow=P["p/2"], cost=-20),
         "c": Link(m, "c", max_flow=2.5) if case["link"] else PiecewiseLink(m, name="c", nsteps=2, max_flows=[1.0, None], costs=[-4, 3]),
         "st": Storage(m, "st", max_volume=cap, min_volume=1.0, initial_volume=cap / 2, cost=-1), "s2": Storage(m, "s2", max_volume=P["m"], min_volume=P["lo"], initial_volume=100.0, initial_volume_pc=.4, cost=-2)}
    N["vs"] = VirtualStorage(m, "vs", [N["a"], N["i2"]], factors=[1.0, .5], max_volume=5000.0, initial_volume=4000.0)
    N["g"] = AggregatedNode(m, "g", [N["a"], N["i2"]])
    N["g"].max_flow = 100.0
    N["ag"] = AggregatedStorage(m, "ag", [N["st"], N["s2"]])
    for x, y in (("a", "c"), ("c", "bb"), ("i2", "st"), ("st", "out"), ("c", "s2"), ("s2", "out")):
        N[x].connect(N[y])
    recs, handles = [], []
    for i, d in enumerate(case["recs"]):
        f = paths[i]
        if d.get("file") == "handle":
            f = tables.open_file(f, mode="w")
            handles.append(f)
        recs.append(T[d["kind"]](m, f, name="r%d" % i, **options(case, d, i, lambda n: N[n] if n in N else P[n], m)))
    return m, N, bomb, recs, paths, handles


class Watch(R.Recorder):
    """what every series holds at the end of each step"""

    def after(self):
        N, t, ts = self.N, self.t, self.model.timestepper.current
        i, w, case = ts.index, self.case["width"], self.case
        row = lambda xs: [q(x) for x in xs]
        v = {"flow:" + n: row(N[n].flow) for n in FLOWS}
        for n in STORES:
            v["vol:" + n] = row(N[n].volume)
        v["net:st"], v["net:s2"] = row(N["st"].flow), row(N["s2"].flow)
        for n in PARS:
            v["par:" + n] = row(t[n][i])
        v["idx:x0"] = list(t["x"][i])
        cap, m, lo, inf = float(case["cap"]), t["m"][i], t["lo"][i], float("inf")
        v["max:st"], v["min:st"], v["max:s2"], v["min:s2"] = row([cap] * w), row([1.0] * w), row(m), row(lo)
        v["max:vs"], v["min:vs"], v["max:ag"], v["min:ag"] = row([5000.0] * w), row([0.0] * w), row([x + cap for x in m]), row([x + 1 for x in lo])
        for n, x in (("a", t["p0"][i]), ("bb", t["pp1"][i]), ("i2", t["pp1"][i]), ("out", t["p/2"][i]), ("c", [2.5 if case["link"] else inf] * w), ("g", [100.0] * w)):
            v["max:" + n], v["min:" + n] = row(x), row([0.0] * w)
        h, n, o = self.ls[i]
        a = datetime.date.fromordinal(o)
        self.seen.append({"k": "step", "idx": i, "h": h, "date": [a.year, a.month, a.day], "v": [v[k] for k in SER]})


def put(a):
    return [[q(x) for x in np.ravel(r)] for r in a]


def frames(case, d, path):
    if not d["time"] or not d["scen"]:
        return []
    cls = R.TablesRecorder if d["kind"] == "t1" else R.TablesRecorder2
    out = []
    for name, f in cls.generate_dataframes(path, time=d["time"], scenarios=d["scen"]):
        ints = f.values.dtype.kind == "i"
        out.append({"dates": [[x.year, x.month, x.day] for x in f.index], "cols": [[int(v) + 1 for v in (c if isinstance(c, tuple) else (c,))] for c in f.columns],
                    "rows": [[int(x) if ints else q(x) for x in r] for r in f.values]})
    return out


def stored(case, d, path):
    """what a file of arrays holds"""
    x = {"times": [], "arrs": [], "scen": [], "combos": [], "slices": [], "ens": [], "routes": [], "rflows": [], "rshape": [], "extra": 0}
    with tables.open_file(path, "r") as f:
        ls = layout(case, d)
        if d["time"]:
            x["times"] = [[int(r[k]) for k in ("year", "month", "day", "index")] for r in f.get_node(d["time"]).read()]
        for w, _, _ in ls:
            if w not in f:
                x["arrs"].append({"there": False})
                continue
            a = f.get_node(w)
            v = a.read()
            at = a._v_attrs["pywr-attribute" if d["kind"] == "t1" and d["legacy"] else "PYWR_ATTRIBUTE"]
            x["arrs"].append({"there": True, "shape": [int(s) for s in v.shape], "attr": str(at), "rows": [[int(z) for z in np.ravel(r)] for r in v] if v.dtype.kind == "i" else put(v)})
        known = {w for w, _, _ in ls} | {"/scenario_combinations", "/scenario_ensemble_names"} | ({(d["where"] + "/rf").replace("//", "/")} if d["routes"] else set())
        x["extra"] = sum(a._v_pathname not in known for a in f.walk_nodes("/", "CArray"))
        if d["scen"]:
            x["scen"] = [[int(r["name"].decode()[1:]) + 1, int(r["size"])] for r in f.get_node(d["scen"]).read()]
            g = d["scen"].rsplit("/", 1)[0]
            if d["kind"] == "t2":
                if "/scenario_combinations" in f:
                    a = f.get_node("/scenario_combinations")
                    assert list(a.attrs.columns) == ["s%d" % i for i in range(len(case["sizes"]))]
                    x["combos"] = [[int(v) for v in r] for r in a.read()]
                if "/scenario_ensemble_names" in f:
                    x["ens"] = [[v.decode() for v in r] for r in f.get_node("/scenario_ensemble_names").read()]
            elif g + "/scenario_combinations" in f:
                x["combos"] = [[int(r["s%d" % i]) for i in range(len(case["sizes"]))] for r in f.get_node(g + "/scenario_combinations").read()]
            if g + "/scenario_slices" in f:
                x["slices"] = [[int(r["name"].decode()[1:]) + 1, int(r["start"]), int(r["stop"]), int(r["step"])] for r in f.get_node(g + "/scenario_slices").read()]
        if d["routes"]:
            x["routes"] = [[r["start"].decode(), r["end"].decode()] for r in f.get_node("/meta/routes").read()]
            v = f.get_node((d["where"] + "/rf").replace("//", "/")).read()
            x["rshape"] = [int(s) for s in v.shape]
            x["rflows"] = [put(r) for r in v]
        x["title"] = f.title
        x["meta"] = [[k, str(f.root._v_attrs[k])] for k, _ in d["meta"]]
    x["frames"] = frames(case, d, path)
    return x


def text(d, path):
    kw = {"mode": "rt", "newline": "", "encoding": "utf-8"}
    op = gzip.open if d["complib"] == "gzip" else bz2.open if d["complib"] else open
    with op(path, **kw) as f:
        rows = list(csv.reader(f, **({k: v for k, v in d["csv"].items()} if d["csv"] else {})))
    out = []
    for r in rows[1:]:
        t = datetime.datetime.fromisoformat(r[0])
        out.append([24 * t.toordinal() + t.hour] + [q(float(v)) for v in r[1:]])
    return {"header": rows[0], "rows": out}


def spec_(case, d):
    """a recorder as the specification sees it"""
    if d["kind"] == "csv":
        ns = sorted(NODES) if d["nodes"] is None else [n for _, n, _ in d["nodes"]]
        return {"kind": "csv", "series": [ID[("vol:" if n in STORES else "flow:") + n] for n in ns], "s": d["s"] + 1, "header": ["Datetime"] + ns}
    ls = layout(case, d)
    return {"kind": d["kind"], "series": [x[1] for x in ls], "attrs": [x[2] for x in ls], "time": d["time"], "scen": d["scen"], "routes": d["routes"],
            "title": "" if d["file"] == "handle" else d["title"] or "doc title", "meta": [[k, str(v)] for k, v in d["meta"]]}


def play(case):
    warnings.simplefilter("ignore")
    t = tables_(case)
    case["n_play"] = case.get("n_play", 0) + 1
    folder = os.path.abspath("c23_%d" % case["seed"])
    os.makedirs(folder, exist_ok=True)
    m, N, bomb, recs, paths, handles = build(case, t, folder)
    w = Watch(m, name="watch")
    w.N, w.t, w.case = N, t, case
    ev = []
    for k, r in enumerate(case["runs"]):
        w.ls, w.seen, bomb.at = steps(case, r), [], None
        if k and (r["start"], r["n"], r["slack"]) != tuple(case["runs"][k - 1][f] for f in ("start", "n", "slack")):
            if handles:   # a file that is held open is not emptied when the model is set up again
                r = dict(r, start=case["runs"][0]["start"], slack=case["runs"][0]["slack"])
                w.ls = steps(case, r)
            else:
                m.timestepper.start, m.timestepper.end = r["start"], final(case, r).isoformat()
        raised = False
        if r["to"] == "run":
            m.run()
        elif isinstance(r["to"], list):
            bomb.at = r["to"][1]
            try:
                m.run()
            except RuntimeError:
                raised = True
        else:
            if m.dirty or m.timestepper.dirty:
                m.setup()
            at = r["restart"] or 0
            if at:
                m.reset(start=m.timestepper.datetime_index[at].start_time)
            else:
                m.reset()
            for _ in range(max(1, r["to"] - at)):
                m.step()
            if r["unfinished"]:
                continue
            m.finish()
        assert len(m.timestepper) == r["n"]
        for h in handles:
            h.flush()
            h.close()
        ev.append({"k": "run"})
        ev.extend(w.seen)
        ev.append({"k": "end", "n": r["n"], "broke": isinstance(r["to"], list), "raised": raised, "rs": [text(d, p) if d["kind"] == "csv" else stored(case, d, p) for d, p in zip(case["recs"], paths)]})
        for i, rec in enumerate(recs):
            if case["recs"][i].get("file") == "handle":
                rec.h5file = tables.open_file(paths[i], mode="r+")
        handles[:] = [rec.h5file for i, rec in enumerate(recs) if case["recs"][i].get("file") == "handle"]
    for h in handles:
        h.close()
    for p in paths:
        os.remove(p)
    sl = [] if not case["slices"] else [{"nostart": s[0] is None, "nostop": s[1] is None, "start": s[0] or 0, "stop": s[1] or 0, "step": s[2] or 1} for s in case["slices"]]
    return {"ev": ev, "width": case["width"], "sizes": case["sizes"], "combos": case["combos"] or [], "slices": sl, "members": [[i + 1 for i in x] for x in members_(case)],
            "names": [NAMED[i][:s] if case["named"] else [str(j) for j in range(s)] for i, s in enumerate(case["sizes"])], "recs": [spec_(case, d) for d in case["recs"]],
            "inner": [] if case["link"] else ["c"], "sources": ["a", "i2"], "sourceflow": [ID["flow:a"], ID["flow:i2"]], "sinks": ["bb", "out"], "sinkflow": [ID["flow:bb"], ID["flow:out"]], "stores": ["st", "s2"], "storeflow": [ID["net:st"], ID["net:s2"]]}


def run(chk):
    chk.model_check("MCStored", None if chk.quick else "MCStoredFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(300, 5000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceStored", cases, traces, what="files", chunks=6)
    kinds = {}
    for c in cases:
        for d in c["recs"]:
            kinds[d["kind"]] = kinds.get(d["kind"], 0) + 1
    chk.extra["recorders"] = kinds
    chk.extra["runs"] = {"whole": sum(r["to"] == "run" for c in cases for r in c["runs"]), "broken off": sum(isinstance(r["to"], list) for c in cases for r in c["runs"]), "part": sum(isinstance(r["to"], int) for c in cases for r in c["runs"])}
    for c in cases[:3]:
        chk.sample({"recorders": c["recs"], "step": c["step"], "sizes": c["sizes"], "json": c["json"], "runs": c["runs"]})


Bomb.load = classmethod(lambda cls, model, data: cls(model, **data))
Bomb.register()
