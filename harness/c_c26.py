"""C26: histories of edits of random networks, replayed on real models and compared with Edit.tla; runs in between are compared with models
built that way from the start."""
import random
import networkx as nx
import numpy as np
from common import q, SOLVERS
from pywr.model import Model
from pywr._core import BaseInput, BaseLink, BaseOutput
from pywr.core import Scenario
from pywr.nodes import (Input, Output, Link, Storage, PiecewiseLink, MultiSplitLink, BreakLink, DelayNode, LossLink, AggregatedNode, VirtualStorage,
                        AggregatedStorage)
from pywr.domains.river import Catchment, River, Reservoir, RiverGauge, RiverSplit, RiverSplitWithGauge, Discharge
from pywr.parameters import ConstantParameter, ConstantScenarioParameter, AggregatedParameter
from pywr.recorders import Recorder, NumpyArrayNodeRecorder, TotalFlowNodeRecorder, NumpyArrayParameterRecorder
from pywr.solvers import *  # noqa
from pywr._core import AbstractNode
from pywr.parameters._parameters import Parameter
from pywr._model import ModelStructureError

T = {"input": "input", "catchment": "input", "discharge": "input", "output": "output", "link": "link", "river": "link", "storage": "storage",
     "reservoir": "storage", "piecewise": "piecewise", "gauge": "piecewise", "split": "split", "riversplit": "split", "splitgauge": "split",
     "break": "break", "delay": "delay", "loss": "loss", "agg": "agg", "virtual": "virtual", "aggstorage": "virtual"}


def kind(d):
    """what Edit.tla needs to know of a node"""
    k = {"t": T[d["type"]], "o": 0, "i": 0, "n": 0, "x": 0, "slots": []}
    if k["t"] == "storage":
        k["o"], k["i"] = d["o"], d["i"]
    if k["t"] == "piecewise":
        k["n"] = 2 if d["type"] == "gauge" else d["n"]
    if k["t"] == "split":
        k["n"] = {"split": d.get("n"), "riversplit": 1, "splitgauge": 2}[d["type"]]
        k["x"], k["slots"] = d["x"], [str(s) for s in (d["slots"] or range(d["x"] + 1))]
    return k


def slots_from(d):
    t = T[d["type"]]
    if t == "storage":
        return [str(i) for i in range(d["i"])] + (["-"] if d["i"] == 1 else [])
    if t == "split":
        return kind(d)["slots"]
    return [] if t in ("agg", "virtual") else ["-"]


def slots_to(d):
    t = T[d["type"]]
    if t == "storage":
        return [str(i) for i in range(d["o"])] + (["-"] if d["o"] == 1 else [])
    return [] if t in ("agg", "virtual") else ["-"]


def real_slot(d, s):
    """the slot as given to connect"""
    if s == "-":
        return None
    if T[d["type"]] == "split" and d["slots"]:
        return s
    return int(s) if s.isdigit() else s


# ------------------------------------------------------------------------------------------------ making things
class World:
    def __init__(self, case):
        self.case = case
        self.m = Model(start=case["start"], end=case["end"], timestep=case["step"], solver=case["solver"])
        if case["scen"] > 1:
            self.scen = Scenario(self.m, "s", size=case["scen"])
        self.spy = Spy(self)
        self.n = {}          # id -> node
        self.c = {}          # id -> component
        self.desc = {}       # id -> description
        self.owner = {}      # part (by identity) -> id
        self.cowner = {}
        self.keep = []       # identities stay unique
        self.late = set()

    def value(self, v):
        return self.c[v["c"]] if isinstance(v, dict) else v

    def add(self, i, name, d, bad=False):
        m = self.m
        before, cbefore = set(map(id, m.graph.nodes())), set(map(id, m.component_graph.nodes()))
        kw = {k: self.value(v) for k, v in d["opts"].items()}
        if bad:
            kw["nonsense"] = 1
        t = d["type"]
        if t in ("input", "catchment", "discharge", "output", "link", "river", "break", "loss"):
            cls = {"input": Input, "catchment": Catchment, "discharge": Discharge, "output": Output, "link": Link, "river": River, "break": BreakLink, "loss": LossLink}[t]
            x = cls(m, name, **kw)
        elif t in ("storage", "reservoir"):
            x = (Storage if t == "storage" else Reservoir)(m, name, outputs=d["o"], inputs=d["i"], **kw)
        elif t == "piecewise":
            x = PiecewiseLink(m, name=name, nsteps=d["n"], **kw)
        elif t == "gauge":
            x = RiverGauge(m, name=name, **kw)
        elif t == "split":
            x = MultiSplitLink(m, name=name, nsteps=d["n"], extra_slots=d["x"], **dict(kw, **({"slot_names": list(d["slots"])} if d["slots"] else {})))
        elif t in ("riversplit", "splitgauge"):
            x = (RiverSplit if t == "riversplit" else RiverSplitWithGauge)(m, name=name, **dict(kw, **({"slot_names": list(d["slots"])} if d["slots"] else {})))
        elif t == "delay":
            x = DelayNode(m, name, **kw)
        elif t == "agg":
            mx = kw.pop("max_flow")
            x = AggregatedNode(m, name, [self.n[j] for j in d["members"]], **kw)
            x.max_flow = mx
        elif t == "virtual":
            x = VirtualStorage(m, name, [self.n[j] for j in d["members"]], **kw)
        elif t == "aggstorage":
            x = AggregatedStorage(m, name, [self.n[j] for j in d["members"]], **kw)
        # (where equally good allocations exist, results cannot be compared)
        if t in ("split", "riversplit", "splitgauge"):
            for y, c in zip(x.sublinks[-d["x"]:], d["xcosts"]):
                y.cost = c
        elif t == "delay":
            x.output.cost = d["xcost"]
        self.n[i], self.desc[i] = x, d
        for y in m.graph.nodes():
            if id(y) not in before:
                self.owner[id(y)] = i
                self.keep.append(y)
        for y in m.component_graph.nodes():
            if id(y) not in cbefore:
                self.cowner[id(y)] = i
                self.keep.append(y)

    def addcomp(self, i, name, d, bad=False):
        m, t = self.m, d["type"]
        clean = not m.dirty
        kw = {"name": name or None}
        if bad:
            kw["nonsense"] = 1
        if t == "constant":
            x = ConstantParameter(m, d["v"], **kw)
        elif t == "scenario":
            x = ConstantScenarioParameter(m, self.scen, d["vs"], **kw)
        elif t == "sum":
            x = AggregatedParameter(m, [self.c[j] for j in d["of"]], agg_func="sum", **kw)
        elif t == "flow":
            x = NumpyArrayNodeRecorder(m, self.n[d["node"]], **kw)
        elif t == "total":
            x = TotalFlowNodeRecorder(m, self.n[d["node"]], **kw)
        elif t == "values":
            x = NumpyArrayParameterRecorder(m, self.c[d["of"][0]], **kw)
        self.c[i] = x
        self.keep.append(x)
        if clean and isinstance(x, Recorder):
            self.late.add(i)     # recorders are set up with the model, which adding one does not ask for

    # ------------------------------------------------ what can be seen
    def ports(self):
        f, t = {}, {}
        for i, x in self.n.items():
            d = self.desc[i]
            for s in sorted(slots_from(d), reverse=True):    # "-" last
                for y in x.iter_slots(real_slot(d, s), True):
                    f[id(y)] = (i, s)
            for s in sorted(slots_to(d), reverse=True):
                for y in x.iter_slots(real_slot(d, s), False):
                    t[id(y)] = (i, s)
        return f, t

    def conns(self):
        f, t = self.ports()
        out = []
        for u, v in self.m.edges():
            if id(u) in f and id(v) in t:
                out.append([*f[id(u)], *t[id(v)]])
            else:
                a, b = self.owner.get(id(u), 0), self.owner.get(id(v), 0)
                if a != b or a not in self.n:
                    out.append([a, "?", b, "?"])
        return out

    def who(self, x):
        i = self.owner.get(id(x), -2)
        if i == -2 or i not in self.n:
            return -2
        return i if self.n[i] is x else -1

    def cwho(self, x):
        if not x.name and not isinstance(x, Recorder):
            own = [i for i, y in self.c.items() if x is y]
            return own[0] if own else -1     # e.g. constants made when a node is set up
        for i, y in self.c.items():
            if x is y:
                return i
        if x is self.spy:
            return -1
        i = self.cowner.get(id(x), -2)
        return -1 if i in self.n else -2

    def see(self, names, cnames, full):
        m = self.m
        e = {"names": [[self.who(x), n] for n, x in m.nodes.items()], "len": len(m.nodes), "look": [], "clook": [], "comps": [], "conns": self.conns(),
             "full": full, "routes": [], "searches": []}
        if [x for x in m.nodes] != list(m.nodes.values()) or list(m.nodes.keys()) != [n for _, n in e["names"]]:
            e["names"].append([-2, "iteration differs"])
        for n in names:
            try:
                r = self.who(m.nodes[n])
                r = -3 if r == -1 else r    # a part of a node
            except KeyError:
                r = -1
            e["look"].append([n, r, n in m.nodes])
        for y in m.components:
            e["comps"].append([self.cwho(y), y.name or "", "rec" if isinstance(y, Recorder) else "param"])
        for n in cnames:
            for typ, coll in (("param", m.parameters), ("rec", m.recorders)):
                try:
                    r = self.cwho(coll[n])
                except KeyError:
                    r = -1
                e["clook"].append([n, r, typ])
        if full:
            rs = m.find_all_routes(BaseInput, BaseOutput, valid=(BaseLink, BaseInput, BaseOutput))
            one = lambda base: rng_.choice([0, 0] + [i for i, x in self.n.items() if type(x) in (base, Link, River)])
            rng_ = random.Random(len(rs) * 31 + len(e["conns"]) * 7 + len(self.n))
            for _ in range(2 if len(e["conns"]) < 12 else 0):
                f, t, mx, dom = one(Input), one(Output), rng_.choice([0, 0, 2, 3, 4]), rng_.choice(["strict", "any", "different"])
                if f and f == t:
                    continue
                got = m.find_all_routes(self.n[f] if f else BaseInput, self.n[t] if t else BaseOutput, valid=(BaseLink, BaseInput, BaseOutput), domain_match=dom, **({"max_length": mx} if mx else {}))
                e["searches"].append({"f": f, "t": t, "max": mx, "dom": dom, "got": [[self.owner.get(id(x), 0) if self.owner.get(id(x), 0) in self.n else 0 for x in r] for r in got]})
            e["routes"] = [[self.owner.get(id(x), 0) if self.owner.get(id(x), 0) in self.n else 0 for x in r] for r in rs]
        return e

    def run(self, steps=None, late=None):
        self.spy.rows = []
        if self.m.dirty:
            self.late = set()
        self.late |= late or set()
        try:
            if steps:
                for _ in range(steps):
                    self.m.step()
            else:
                self.m.run()
        except ModelStructureError as e:
            return "refused", [str(e)[:100]]
        except Exception as e:
            return "unsolved", ["%s: %s" % (type(e).__name__, str(e)[:80])]
        rows = list(self.spy.rows)
        last = []
        for i in sorted(self.c):
            x = self.c[i]
            if isinstance(x, Recorder) and i not in self.late:
                last += [q(v) for v in np.ravel(x.data if hasattr(x, "data") else x.values())]
        return "ok", rows + [last]


class Spy(Recorder):
    def __init__(self, w):
        super().__init__(w.m, name="the spy")
        self.w, self.rows = w, []

    def after(self):
        row = []
        for i in sorted(self.w.n):
            x = self.w.n[i]
            row += [q(v) for v in x.flow]
            if hasattr(x, "volume"):
                row += [q(v) for v in x.volume]
        self.rows.append(row)

    def values(self):
        return np.zeros(len(self.model.scenarios.combinations))


def afresh(w, names, cnames):
    """a model built directly the way the edited one is now"""
    g = World(w.case)
    f, t = w.ports()
    order = sorted(list(("n", i) for i in w.n) + list(("c", i) for i in w.c), key=lambda x: w.born[x])
    for k, i in order:
        if k == "n":
            # (names some parts have can only be given later)
            g.add(i, names[i] if names[i] in w.case["names"][:10] else "temporary %d" % i, w.desc[i])
        else:
            g.addcomp(i, cnames[i], w.cdesc[i])
    for i in w.n:
        if g.n[i].name != names[i]:
            g.n[i].name = names[i]
    for a, sa, b, sb in w.conns():
        g.n[a].connect(g.n[b], from_slot=real_slot(w.desc[a], sa), to_slot=real_slot(w.desc[b], sb))
    return g


def run_case(case):
    w = World(case)
    w.born, w.cdesc = {}, {}
    other = Model()
    far = {"input": Input(other, "far in"), "output": Output(other, "far out"), "storage": Storage(other, "far storage")}
    names, cnames, ev = {}, {}, []
    for no, o in enumerate(case["ops"]):
        out, extra, op = "ok", {}, dict(o)
        k = o["op"]
        try:
            if k == "add":
                op["kind"] = kind(o["d"])
                op["sound"] = not o["bad"]
                del op["d"], op["bad"]
                w.add(o["id"], o["name"], o["d"], o["bad"])
                w.born["n", o["id"]] = no
            elif k == "rename":
                w.n[o["id"]].name = o["name"]
            elif k == "connect":
                a, b = w.desc[o["a"]], w.desc[o["b"]]
                kw = {}
                if o["sa"] != "-" or o["give"]:
                    kw["from_slot"] = real_slot(a, o["sa"])
                if o["sb"] != "-" or o["give"]:
                    kw["to_slot"] = real_slot(b, o["sb"])
                w.n[o["a"]].connect(w.n[o["b"]], **kw)
            elif k == "disconnect":
                a, b = w.n[o["a"]], w.n[o["b"]]
                if o["sb"] == "-":
                    a.disconnect(b)
                elif o["part"]:
                    a.disconnect(list(b.iter_slots(real_slot(w.desc[o["b"]], o["sb"]), False))[0])
                else:
                    a.disconnect(b, slot_name=real_slot(w.desc[o["b"]], o["sb"]))
            elif k == "disconnectall":
                w.n[o["a"]].disconnect()
            elif k == "remove":
                if o["id"] in w.n:
                    x = w.n[o["id"]]
                    if o["byname"]:
                        del w.m.nodes[names[o["id"]]]
                    else:
                        del w.m.nodes[x]
                    del w.n[o["id"]]
                else:
                    del w.m.nodes["there is none"]
            elif k == "foreign":
                a = w.n[o["a"]]
                (a.connect(far[o["far"]]) if o["out"] else far[o["far"]].connect(a))
            elif k == "addcomp":
                op["type"] = "rec" if o["d"]["type"] in ("flow", "total", "values") else "param"
                op["sound"] = not o["bad"]
                del op["d"], op["bad"]
                w.addcomp(o["id"], o["name"], o["d"], o["bad"])
                w.born["c", o["id"]] = no
                w.cdesc[o["id"]] = o["d"]
            elif k == "renamecomp":
                w.c[o["id"]].name = o["name"]
        except Exception as e:
            out = "refused"
            extra["why"] = ("%s: %s" % (type(e).__name__, e))[:100]
        if out == "ok":
            if k in ("add", "rename"):
                names[o["id"]] = o["name"]
            if k in ("addcomp", "renamecomp"):
                cnames[o["id"]] = o["name"]
        if k == "run":
            op = {"op": "run", "part": bool(o["steps"]), "edges": case["solver"] == "glpk-edge"}
            ran, rows = w.run(o["steps"])
            extra["ran"] = ran
            extra["rows"] = rows if ran == "ok" else []
            extra["fresh"], extra["freshrows"] = ran, []
            if ran != "ok":
                extra["why"] = rows[0]
            out = "refused" if ran == "refused" else "ok"
            if not o["steps"]:
                g = afresh(w, names, cnames)
                late = set(w.late)
                ran, rows = g.run(late=late)
                extra["fresh"], extra["freshrows"] = ran, rows if ran == "ok" else []
                if ran != "ok":
                    extra["freshwhy"] = rows[0]
        e = w.see(case["names"], case["cnames"], o.get("full", False) or k == "run")
        e.update(extra, op=op, out=out)
        ev.append(e)
    return {"ev": ev}


# ------------------------------------------------------------------------------------------------ histories
class Gen:
    """keeps track of what there is, so that most edits make sense (what they do is for Edit.tla to say)"""

    def __init__(self, rng, quick=True):
        self.rng = rng
        step = rng.choice([1, 1, 1, 7, "D", "7D"])
        nts = rng.choice([2, 3, 4])
        import pandas as pd
        start = rng.choice(["2019-12-30", "2020-02-27", "2021-06-01"])
        days = 7 if step in (7, "7D") else 1
        self.case = {"start": start, "end": str((pd.Timestamp(start) + pd.Timedelta(days=days * nts - 1)).date()), "step": step, "solver": rng.choice(SOLVERS),
                     "scen": rng.choice([1, 1, 2]), "ops": []}
        self.ops = self.case["ops"]
        self.live, self.comps, self.edges, self.ids = {}, {}, set(), 0
        self.pool = ["n%d" % i for i in range(1, 11)]
        self.special = ["n1 Input", "n1 Output", "[output0]", "[input0]", "n2 Sublink 0"]
        self.cpool = ["p%d" % i for i in range(1, 7)]
        self.case["names"] = self.pool + self.special
        self.case["cnames"] = self.cpool + ["n1 - delay parameter"]
        self.birth = {}      # names under which compound nodes were made

    def cost(self):
        return round(self.rng.uniform(-10, 10), 3)

    def num(self, lo=1, hi=20):
        ps = [i for i, c in self.comps.items() if c["d"]["type"] in ("constant", "scenario", "sum")]
        if ps and self.rng.random() < .25:
            i = self.rng.choice(ps)
            return {"c": i}
        return round(self.rng.uniform(lo, hi), 2)

    def describe(self, t):
        r = self.rng
        d = {"type": t, "opts": {}}
        o = d["opts"]
        if t in ("input", "output", "link", "river"):
            o["cost"] = self.cost() - (15 if t == "output" else 0)
            if t in ("input", "output") or r.random() < .4:
                o["max_flow"] = self.num()
        elif t in ("catchment", "discharge"):
            o["flow"] = self.num(0, 1)
            o["cost"] = self.cost()
        elif t in ("storage", "reservoir"):
            d["o"], d["i"] = r.choice([1, 1, 2]), r.choice([1, 1, 2, 3])
            o["max_volume"] = 60.0
            o["initial_volume"] = round(r.uniform(0, 60), 2)
            o["cost"] = self.cost()
            if t == "reservoir" and r.random() < .6:
                o["above_curve_cost"] = self.cost()
                o["control_curve"] = .5
        elif t == "piecewise":
            d["n"] = r.choice([1, 2, 3])
            o["costs"] = [self.cost() for _ in range(d["n"])]
            o["max_flows"] = [round(r.uniform(1, 8), 2) for _ in range(d["n"])]
        elif t == "gauge":
            o.update(mrf=round(r.uniform(0, 5), 2), mrf_cost=self.cost(), cost=self.cost())
        elif t in ("split", "riversplit", "splitgauge"):
            d["x"] = r.choice([1, 1, 2])
            if t == "split":
                d["n"] = r.choice([1, 2])
                o["costs"] = [self.cost() for _ in range(d["n"])]
                o["max_flows"] = [round(r.uniform(1, 8), 2) for _ in range(d["n"])]
            if t == "splitgauge":
                o.update(mrf=round(r.uniform(0, 5), 2), mrf_cost=self.cost(), cost=self.cost())
            if t != "split" or r.random() < .4:
                o["factors"] = [round(r.uniform(1, 4), 1) for _ in range(d["x"] + 1)]
            if t == "riversplit":
                o["costs"] = [self.cost()]
            d["xcosts"] = [self.cost() for _ in range(d["x"])]
            d["slots"] = r.choice([None, ["river", "abstraction", "spill"][:d["x"] + 1]])
        elif t == "break":
            o["cost"] = self.cost()
        elif t == "delay":
            o["timesteps"] = r.choice([1, 2])
            d["xcost"] = self.cost()
            o["initial_flow"] = round(r.uniform(0, .5), 2)
        elif t == "loss":
            o.update(cost=self.cost(), loss_factor=r.choice([0, .1, .25]))
        return d

    def free(self, pool, used):
        return [n for n in pool if n not in used]

    def op(self, **o):
        self.ops.append(o)

    def names(self):
        return {x["name"] for x in self.live.values()}

    def add(self, t=None, name=None, bad=False):
        r = self.rng
        t = t or r.choice(["input", "output", "link", "input", "output", "link", "catchment", "discharge", "river", "storage", "storage", "reservoir", "piecewise", "gauge", "split",
                           "riversplit", "splitgauge", "break", "delay", "loss"])
        # parts of compound nodes have names of their own, which must not be in use
        plain = t in ("input", "output", "link", "catchment", "discharge", "river", "agg", "virtual", "aggstorage")
        if not plain and self.names() & set(self.special):
            t, plain = "link", True
        d = self.describe(t)
        if name is None:
            c = self.free(self.pool + (self.special if plain and r.random() < .3 else []), self.names())
            if not plain:
                c = [n for n in c if n not in self.birth.values()]
            if not c:
                return
            name = r.choice(c if not (plain and set(c) & set(self.special)) else sorted(set(c) & set(self.special)))
        dup = name in self.names()
        self.ids += 1
        i = self.ids
        self.op(op="add", id=i, name=name, d=d, bad=bad)
        if not dup and not bad:
            self.live[i] = {"name": name, "d": d}
            if not plain:
                self.birth[i] = name
            return i

    def group(self):
        """nodes which refer to others"""
        r = self.rng
        t = r.choice(["agg", "virtual", "aggstorage"])
        c = [i for i, x in self.live.items() if T[x["d"]["type"]] in (("storage",) if t == "aggstorage" else ("input", "output", "link"))]
        if len(c) < 2:
            return
        d = {"type": t, "members": r.sample(c, 2), "opts": {"agg": {"max_flow": round(r.uniform(3, 20), 2)}, "virtual": {"max_volume": 100.0, "initial_volume": round(r.uniform(10, 100), 1)},
                                                          "aggstorage": {}}[t]}
        name = self.free(self.pool, self.names())
        if not name:
            return
        self.ids += 1
        self.op(op="add", id=self.ids, name=name[0], d=d, bad=False)
        self.live[self.ids] = {"name": name[0], "d": d}

    def held(self):
        """nodes others refer to"""
        h = set()
        for x in self.live.values():
            h |= set(x["d"].get("members", []))
        for c in self.comps.values():
            if "node" in c["d"]:
                h.add(c["d"]["node"])
        return h

    def addcomp(self, bad=False, name=None):
        r = self.rng
        types = ["constant", "constant"]
        if self.case["scen"] > 1:
            types.append("scenario")
        params = [i for i, c in self.comps.items() if c["d"]["type"] in ("constant", "scenario", "sum")]
        if params:
            types += ["sum", "values"]
        if self.live:
            types += ["flow", "total"]
        d = {"type": r.choice(types)}
        t = d["type"]
        if t == "constant":
            d["v"] = round(r.uniform(1, 20), 2)
        elif t == "scenario":
            d["vs"] = [round(r.uniform(1, 20), 2) for _ in range(self.case["scen"])]
        elif t == "sum":
            d["of"] = [r.choice(params) for _ in range(1)]
        elif t == "values":
            d["of"] = [r.choice(params)]
        else:
            c = [i for i, x in self.live.items() if x["d"]["type"] not in ("virtual", "aggstorage") and T[x["d"]["type"]] != "storage"]
            if not c:
                return
            d["node"] = r.choice(c)
        used = {c["name"] for c in self.comps.values()}
        if name is None:
            fr = self.free(self.cpool, used)
            # (a recorder without a name names itself after what it records)
            name = r.choice(fr) if fr else "" if t in ("constant", "scenario", "sum") else "r%d" % self.ids
        self.ids += 1
        self.op(op="addcomp", id=self.ids, name=name, d=d, bad=bad)
        if name not in used and not bad:
            self.comps[self.ids] = {"name": name, "d": d}

    def canon(self, i, s, to):
        """a slot under one name"""
        d = self.live[i]["d"]
        if T[d["type"]] == "storage" and s == "-":
            return "0"
        return s

    def connect(self, a=None, b=None, sa=None, sb=None):
        r = self.rng
        A = [i for i in self.live if slots_from(self.live[i]["d"])]
        B = [i for i in self.live if slots_to(self.live[i]["d"])]
        if not A or not B:
            return
        if a is None:
            a = r.choice(A)
        if b is None:
            b = r.choice(B)
        if a == b:
            return
        sa = sa if sa is not None else r.choice(slots_from(self.live[a]["d"]))
        sb = sb if sb is not None else r.choice(slots_to(self.live[b]["d"]))
        self.op(op="connect", a=a, sa=sa, b=b, sb=sb, give=r.random() < .3)
        self.edges.add((a, self.canon(a, sa, False), b, self.canon(b, sb, True)))

    def badconnect(self):
        r = self.rng
        if not self.live:
            return
        a, b = r.choice(list(self.live)), r.choice(list(self.live))
        if a == b:
            return
        da, db = self.live[a]["d"], self.live[b]["d"]
        what = r.choice(["from", "to", "unspecified", "group", "foreign"])
        if what == "foreign":
            if slots_from(da):
                self.op(op="foreign", a=a, far=r.choice(["input", "output", "storage"]), out=r.random() < .5)
            return
        sa, sb = (slots_from(da) or ["-"])[0], (slots_to(db) or ["-"])[0]
        if what == "from":
            sa = r.choice(["7", "nonsense"])
        elif what == "to":
            sb = r.choice(["7", "nonsense"])
        elif what == "unspecified":
            sa, sb = "-", "-"
            if "-" in slots_from(da) and "-" in slots_to(db):
                return
        elif slots_from(da) and slots_to(db):
            return
        self.op(op="connect", a=a, sa=sa, b=b, sb=sb, give=r.random() < .3)

    def disconnect(self):
        r = self.rng
        if not self.edges or r.random() < .15:
            c = [i for i in self.live if slots_from(self.live[i]["d"])]
            e = [i for i in self.live if slots_to(self.live[i]["d"])]
            if not c or not e:
                return
            a, b = r.choice(c), r.choice(e)
            if a != b:
                self.op(op="disconnect", a=a, b=b, sb="-", part=False)
                self.edges = {x for x in self.edges if (x[0], x[2]) != (a, b)}
            return
        a, sa, b, sb = r.choice(sorted(self.edges))
        if r.random() < .2:
            self.op(op="disconnectall", a=a)
            self.edges = {x for x in self.edges if x[0] != a}
            return
        storage = T[self.live[b]["d"]["type"]] == "storage"
        if not storage or r.random() < .4:
            self.op(op="disconnect", a=a, b=b, sb="-", part=False)
            self.edges = {x for x in self.edges if (x[0], x[2]) != (a, b)}
        else:
            self.op(op="disconnect", a=a, b=b, sb=sb, part=r.random() < .3)
            self.edges = {x for x in self.edges if (x[0], x[2], x[3]) != (a, b, sb)}

    def remove(self, i=None):
        r = self.rng
        if i is None:
            c = [i for i in self.live if i not in self.held()]
            if not c or r.random() < .07:
                self.op(op="remove", id=10000, byname=True)
                return
            i = r.choice(c)
        self.op(op="remove", id=i, byname=r.random() < .6)
        del self.live[i]
        self.birth.pop(i, None)
        self.edges = {x for x in self.edges if x[0] != i and x[2] != i}

    def rename(self):
        r = self.rng
        if not self.live:
            return
        i = r.choice(list(self.live))
        if r.random() < .25:
            n = r.choice(sorted(self.names()))
        else:
            special = set(self.special) if r.random() < .2 else set()
            c = self.free(sorted(special or set(self.pool)), self.names())
            c = [n for n in c if n not in self.birth.values()] or c
            if not c:
                return
            n = r.choice(c)
        taken = n in self.names() and self.live[i]["name"] != n
        self.op(op="rename", id=i, name=n)
        if not taken:
            self.live[i]["name"] = n

    def renamecomp(self):
        if not self.comps:
            return
        i = self.rng.choice(list(self.comps))
        n = self.rng.choice(self.cpool)
        taken = any(c["name"] == n for c in self.comps.values()) and self.comps[i]["name"] != n
        self.op(op="renamecomp", id=i, name=n)
        if not taken:
            self.comps[i]["name"] = n

    def idle(self):
        """slots which are not connected"""
        out = []
        for i, x in self.live.items():
            d = x["d"]
            t = T[d["type"]]
            for s in slots_from(d):
                if not (t == "storage" and s == "-") and t != "output" and not any(e[0] == i and e[1] == s for e in self.edges):
                    out.append((i, s, "from"))
            for s in slots_to(d):
                if not (t == "storage" and s == "-") and t != "input" and not any(e[2] == i and e[3] == s for e in self.edges):
                    out.append((i, s, "to"))
        return out

    def mend(self):
        """so that the model can be run: connect what is not"""
        r = self.rng
        src = [i for i, x in self.live.items() if x["d"]["type"] == "input"]
        snk = [i for i, x in self.live.items() if x["d"]["type"] == "output"]
        if not src:
            src = [self.add("input")]
        if not snk:
            snk = [self.add("output")]
        if src == [None] or snk == [None]:
            return
        for i, s, w in self.idle():
            if w == "from":
                self.connect(i, r.choice(snk), sa=s)
            else:
                self.connect(r.choice(src), i, sb=s)

    def run(self, steps=0):
        if self.rng.random() < .9:
            self.mend()
        self.op(op="run", steps=steps)

    def history(self, n):
        r = self.rng
        for _ in range(r.randrange(2, 5)):
            self.add()
        for _ in range(3):
            self.connect()
        while len(self.ops) < n:
            x = r.random()
            if x < .2:
                self.add()
            elif x < .23:
                self.group()
            elif x < .28:
                if self.live:
                    self.add(name=r.choice(sorted(self.names())) if r.random() < .7 else None, bad=r.random() < .5)
            elif x < .42:
                self.connect()
            elif x < .50:
                self.badconnect()
            elif x < .62:
                self.disconnect()
            elif x < .72:
                self.remove()
            elif x < .80:
                self.rename()
            elif x < .86:
                self.addcomp()
            elif x < .88:
                used = [c["name"] for c in self.comps.values() if c["name"]]
                if used:
                    self.addcomp(name=r.choice(used))
            elif x < .91:
                self.renamecomp()
            elif x < .94:
                self.run(steps=r.choice([1, 2]))
            else:
                self.run()
            if len(self.live) > 9:
                free = [i for i in self.live if i not in self.held()]
                if free:
                    self.remove(r.choice(free))
            if self.ops and r.random() < .25:
                self.ops[-1]["full"] = True
        self.run()
        return self.case


def gen(rng, n):
    return Gen(rng).history(rng.randrange(*n))


def key(c):
    return "history"


def run(chk):
    chk.model_check("MCEdit", "MCEdit" if chk.quick else "MCEditFull")
    chk.model_check("MCEdit", "MCEditCompound")
    cases = [gen(chk.rng, (14, 30)) for _ in range(chk.n(220, 4000))]
    traces = chk.run_cases(run_case, cases)
    did, ran = {}, {}
    for c, t in zip(cases, traces):
        for e in (t.get("ev", []) if isinstance(t, dict) else []):
            k = "%s %s" % (e["op"]["op"], e["out"])
            did[k] = did.get(k, 0) + 1
            if e["op"]["op"] == "run":
                ran[e["ran"]] = ran.get(e["ran"], 0) + 1
    chk.extra["edits"], chk.extra["runs"] = did, ran
    chk.validate("TraceEdit", cases, traces, key=key, what="editing networks")
