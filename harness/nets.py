"""Random networks with known data, for the allocation properties: generation, building in pywr, recording of every step with a
witness (edge flows that explain the node flows) and a certificate (dual multipliers of the documented linear problem, computed
here from the case's own data by scipy and judged by TLC)."""
import datetime, random
import numpy as np
from scipy.optimize import linprog
from common import q, INF
from pywr.core import Model, Input, Link, Output, Storage, AggregatedNode, AggregatedStorage, VirtualStorage, Catchment, Reservoir, River, Scenario, Domain, PiecewiseLink, RiverGauge
from pywr.nodes import LossLink, BreakLink, MultiSplitLink
from pywr.domains.river import RiverSplit, RiverSplitWithGauge
import pywr.parameters as P
from pywr.recorders import Recorder

inf = float("inf")


class Table(P.Parameter):
    """a parameter written by a user: values by timestep and scenario"""
    def __init__(self, model, table, **kw):
        super().__init__(model, **kw)
        self.table = table

    def value(self, ts, si):
        return self.table[ts.index][si.global_id]


# ------------------------------------------------------------------------------------------------------ generation
REPS = ["num", "const", "array", "arrays", "consts", "user"]


def table(rng, T, S, draw, reps=REPS):
    """an attribute: how it is given, and its values [timestep][scenario]"""
    rep = rng.choice(reps)
    if rep in ("num", "const"):
        v = draw()
        return {"rep": rep, "v": [[v] * S for _ in range(T)]}
    if rep == "array":
        return {"rep": rep, "v": [[x] * S for x in [draw() for _ in range(T)]]}
    if rep == "consts":
        r = [draw() for _ in range(S)]
        return {"rep": rep, "v": [list(r) for _ in range(T)]}
    return {"rep": rep, "v": [[draw() for _ in range(S)] for _ in range(T)]}


def fixed(v, T, S):
    return {"rep": "num", "v": [[v] * S for _ in range(T)]}


def uni(rng, a, b, d):
    return lambda: round(rng.uniform(a, b), d)


def gen_net(rng, agg=0.4, vs=0.3, conv=0.1, tight=0.25, solver=None, nsto=None, aggsto=0.5, big=False, lims=0.8, cmp=0.0):
    T, S = rng.randrange(2, 6), rng.choice([1, 1, 2, 3])
    step = rng.choice([1, 1, 2, 7, 30])
    solver = solver or rng.choice(["glpk", "glpk-edge", "lpsolve"])
    args = {}
    if solver != "lpsolve":
        for k in ("use_presolve", "use_unsafe_api", "set_fixed_flows_once", "set_fixed_costs_once", "set_fixed_factors_once", "retry_solve"):
            if rng.random() < 0.2:
                args[k] = True
    if solver != "glpk-edge" and rng.random() < 0.2:
        args["save_routes_flows"] = True
    nodes, edges = [], []
    k = 2 if big else 1
    ni, nl, no = rng.randrange(1, 3 * k), rng.randrange(0, 4 * k), rng.randrange(1, 3 * k + 1)
    ns = nsto if nsto is not None else rng.choice([0, 1, 1, 2])
    for i in range(ni):
        cls = rng.choice(["Input", "Input", "Catchment"])
        d = {"k": "in", "cls": cls, "c": table(rng, T, S, uni(rng, 0, 3, 1))}
        if cls == "Catchment":
            d["lo"] = d["hi"] = table(rng, T, S, uni(rng, 0, 8, 2))
        else:
            d["lo"] = table(rng, T, S, uni(rng, 0, 1, 2)) if rng.random() < tight else fixed(0.0, T, S)
            d["hi"] = table(rng, T, S, uni(rng, 1, 10, 2)) if rng.random() < lims else fixed(inf, T, S)
        nodes.append(d)
    for i in range(nl):
        d = {"k": "link", "cls": rng.choice(["Link", "Link", "River"]), "c": table(rng, T, S, uni(rng, 0, 2, 1))}
        d["lo"] = table(rng, T, S, uni(rng, 0, 1.5, 2)) if rng.random() < tight else fixed(0.0, T, S)
        d["hi"] = table(rng, T, S, uni(rng, 1.5, 9, 2)) if rng.random() < 0.6 * lims else fixed(inf, T, S)
        if d["hi"]["v"][0][0] != inf and rng.random() < 0.2:
            d["c"] = table(rng, T, S, uni(rng, -3, 2, 1))
        nodes.append(d)
    for i in range(ns):
        mx = round(rng.uniform(10, 90), 1)
        mn = rng.choice([0.0, 0.0, round(rng.uniform(1, 9), 1)])
        d = {"k": "sto", "cls": rng.choice(["Storage", "Storage", "Reservoir"]), "c": table(rng, T, S, uni(rng, -4, 1, 1)),
             "lo": fixed(0.0, T, S), "hi": fixed(0.0, T, S), "smin": fixed(mn, T, S), "smax": fixed(mx, T, S), "nin": rng.choice([1, 1, 2]), "nout": rng.choice([1, 1, 2])}
        iv = round(rng.uniform(mn, mx), 1)
        r = rng.random()
        if r < 0.15:     # varying bounds
            d["smax"] = table(rng, T, S, lambda: round(mx * rng.uniform(0.8, 1.2), 1), ["array", "arrays", "user", "consts"])
            d["init"], d["initpc"] = iv, round(iv / mx, 2)
        elif r < 0.3:
            d["smax"] = {"rep": "const", "v": [[mx] * S for _ in range(T)]}
            d["init"], d["initpc"] = rng.choice([(iv, None), (None, round(iv / mx, 2)), (iv, round(iv / mx, 2))])
        elif r < 0.35:
            d["smax"] = d["smin"] = fixed(0.0, T, S)
            d["init"], d["initpc"] = 0.0, None
        else:
            d["init"], d["initpc"] = rng.choice([(iv, None), (None, round(iv / mx, 2))])
        if r > 0.35 and rng.random() < 0.15:
            d["smin"] = table(rng, T, S, lambda: round(rng.uniform(0, 9), 1), ["array", "arrays", "user", "consts", "const"])
        nodes.append(d)
    for i in range(no):
        d = {"k": "out", "cls": "Output"}
        d["lo"] = table(rng, T, S, uni(rng, 0, 1.5, 2)) if rng.random() < tight else fixed(0.0, T, S)
        if rng.random() < 0.7:
            d["c"] = table(rng, T, S, uni(rng, -25, -3, 1))
            d["hi"] = table(rng, T, S, uni(rng, 1.5, 10, 2))
        else:
            d["c"] = table(rng, T, S, uni(rng, 7, 9, 1))
            d["hi"] = fixed(inf, T, S)
        nodes.append(d)
    I = [i for i, d in enumerate(nodes) if d["k"] == "in"]
    L = [i for i, d in enumerate(nodes) if d["k"] == "link"]
    Q = [i for i, d in enumerate(nodes) if d["k"] == "sto"]
    O = [i for i, d in enumerate(nodes) if d["k"] == "out"]
    for u in I + L + Q:
        targets = [v for v in L if u not in L or v > u] + [v for v in Q if v != u] + O
        n = min(len(targets), rng.choice([1, 1, 2, 2, 3]))
        for v in rng.sample(targets, n):
            edges.append([u, v])
    if rng.random() < 0.7:     # spill for water that must go somewhere
        i = len(nodes)
        nodes.append({"k": "out", "cls": "Output", "lo": fixed(0.0, T, S), "hi": fixed(inf, T, S), "c": fixed(6.5, T, S)})
        for u in I + L:
            if [u, i] not in edges and rng.random() < 0.8:
                edges.append([u, i])
    # only what lies on a route
    while True:
        src = {i for i, d in enumerate(nodes) if d["k"] in ("in", "sto")}
        reach, ok = set(src), True
        for _ in nodes:
            for u, v in edges:
                if u in reach:
                    reach.add(v)
        back = {i for i, d in enumerate(nodes) if d["k"] in ("out", "sto")}
        for _ in nodes:
            for u, v in edges:
                if v in back:
                    back.add(u)
        has_in, has_out = {v for u, v in edges}, {u for u, v in edges}
        drop = set()
        for i, d in enumerate(nodes):
            if d["k"] == "in" and not any(u == i and v in back for u, v in edges) or d["k"] == "out" and not any(v == i and u in reach for u, v in edges) or \
               d["k"] == "link" and not (any(v == i and u in reach for u, v in edges) and any(u == i and v in back for u, v in edges)) or \
               d["k"] == "sto" and i not in has_in and i not in has_out:
                drop.add(i)
        if not drop:
            break
        edges = [e for e in edges if e[0] not in drop and e[1] not in drop]
        for i in drop:
            nodes[i]["k"] = "gone"
    keep = [i for i, d in enumerate(nodes) if d["k"] != "gone"]
    ren = {i: j for j, i in enumerate(keep)}
    nodes = [nodes[i] for i in keep]
    edges = [[ren[u], ren[v]] for u, v in edges]
    # a storage that exchanges water with itself only is not a network
    for i, d in enumerate(nodes):
        if d["k"] == "sto" and not any(nodes[j]["k"] != "link" for j in reaches(edges, nodes, i) if j != i):
            return gen_net(rng, agg, vs, conv, tight, solver, nsto, aggsto, big, lims, cmp)
    if not any(d["k"] == "in" or d["k"] == "sto" for d in nodes) or not edges or not any(d["k"] == "in" for d in nodes):
        return gen_net(rng, agg, vs, conv, tight, solver, nsto, aggsto, big, lims, cmp)
    names = rng.sample(["n%02d" % i for i in range(40)], len(nodes))
    for d, n in zip(nodes, names):
        d["name"] = n
    case = {"T": T, "S": S, "step": step, "solver": solver, "args": args, "nodes": nodes, "edges": edges, "vs": [], "agg": [], "conv": [], "aggsto": [],
            "start": "2015-%02d-%02d" % (rng.randrange(1, 13), rng.randrange(1, 28)), "seed": rng.randrange(10 ** 9), "cmp": [], "retune": rng.random() < .3}
    if cmp:
        for i in [i for i, d in enumerate(nodes) if d["k"] == "link"]:
            if rng.random() < cmp:
                compound(rng, case, i)
    fl = [i for i, d in enumerate(nodes) if d["k"] != "sto" and "grp" not in d]
    if rng.random() < vs:
        for _ in range(rng.choice([1, 1, 2])):
            ms = rng.sample(fl, rng.randrange(1, min(3, len(fl)) + 1))
            if rng.random() < .15:
                ms.append(rng.choice(ms))       # counts more than once
            mx = round(rng.uniform(5, 40) * step, 1)
            mn = rng.choice([0.0, 0.0, 2.0])
            pc = rng.choice([1.0, round(rng.uniform(.3, 1), 2)])
            case["vs"].append({"nodes": ms, "f": [rng.choice([1.0, 0.5, 2.0, 1.25]) for _ in ms], "smin": fixed(mn, T, S), "smax": fixed(mx, T, S),
                               "init": None if rng.random() < .5 else round(pc * mx, 1), "initpc": pc})
    if rng.random() < agg:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["limit", "limit", "weights", "factors", "factors+", "min"])
            g = {"glo": fixed(-inf, T, S), "ghi": fixed(inf, T, S), "gf": None, "w": None}
            if kind.startswith("factors"):
                # members whose routes are disjoint
                ms = disjoint(rng, nodes, edges)
                if len(ms) < 2:
                    continue
                ms = ms[:rng.choice([2, 2, 3])]
                if solver == "lpsolve":
                    g["gf"] = [fixed(round(rng.uniform(.5, 3), 2), T, S) for _ in ms]
                else:
                    g["gf"] = [table(rng, T, S, uni(rng, .5, 3, 2)) for _ in ms]
                    if rng.random() < 0.15:
                        z = rng.randrange(len(ms))
                        g["gf"][z] = table(rng, T, S, lambda: rng.choice([0.0, 1.0]), ["array", "arrays", "user", "consts"])
                    if any(f["rep"] == "consts" for f in g["gf"]) and False:
                        pass
            else:
                ms = rng.sample(fl, rng.randrange(1, min(4, len(fl)) + 1))
            g["nodes"] = ms
            if kind == "weights":
                g["w"] = [rng.choice([0.5, 1.0, 2.0, 1.5]) for _ in ms]
            if kind in ("limit", "weights", "factors+"):
                g["ghi"] = table(rng, T, S, uni(rng, 2, 12, 2))
            if kind == "min":
                g["glo"] = table(rng, T, S, uni(rng, 0.2, 2, 2))
                g["ghi"] = rng.choice([fixed(inf, T, S), table(rng, T, S, uni(rng, 3, 12, 2))])
            case["agg"].append(g)
    if rng.random() < conv:
        add_conv(rng, case)
    if Q and rng.random() < aggsto:
        sto = [i for i, d in enumerate(nodes) if d["k"] == "sto"]
        if sto:
            case["aggsto"].append(rng.sample(sto, rng.randrange(1, len(sto) + 1)))
    return case


def compound(rng, case, i):
    """make the link i a compound node: its parts become nodes of the specification's network"""
    T, S, nodes, edges = case["T"], case["S"], case["nodes"], case["edges"]
    kind = rng.choice(["piecewise", "piecewise", "loss", "loss", "break", "gauge", "multi", "split", "splitgauge"])
    pre, suc = [u for u, v in edges if v == i], [v for u, v in edges if u == i]
    if kind in ("multi", "split", "splitgauge") and len(suc) < 2:
        kind = "piecewise"
    d = nodes[i]
    gid = len(case["cmp"])
    g = {"kind": kind, "name": d["name"], "of": [i], "parts": [i]}
    inf_ = fixed(inf, T, S)

    def part(**kw):
        nodes.append(dict({"k": "link", "cls": "part", "name": "%s.%d" % (d["name"], len(nodes)), "grp": gid, "lo": fixed(0.0, T, S), "hi": inf_, "c": fixed(0.0, T, S)}, **kw))
        g["parts"].append(len(nodes) - 1)
        return len(nodes) - 1
    d["grp"] = gid
    free = lambda: rng.random() < .5
    if kind == "break":
        pass
    elif kind == "loss":
        typ = rng.choice(["net", "gross"])
        if typ == "gross" or case["solver"] == "lpsolve":
            f = fixed(rng.choice([0.0, 0.2, 0.25, 0.5, 0.1] + ([1.0] if typ == "gross" else [1.5])), T, S)
        else:
            f = table(rng, T, S, lambda: rng.choice([0.0, 0.1, 0.2, 0.25, 0.5, 1.0, 1.5]), ["num", "array", "arrays", "consts", "user", "const"])
        a = part()                                   # gross
        o = part(k="out")                            # lost
        edges[:] = [[u, a if v == i else v] for u, v in edges] + [[a, i], [a, o]]
        g["type"], g["f"], g["gross"], g["lost"] = typ, f, a, o
        zero, one = f["rep"] == "num" and f["v"][0][0] == 0.0, typ == "gross" and f["v"][0][0] == 1.0
        if zero:
            nodes[o]["hi"] = fixed(0.0, T, S)
        elif one:
            nodes[i]["hi"] = fixed(0.0, T, S)
            nodes[i]["lo"] = fixed(0.0, T, S)
        if zero or one:
            g["gf"] = []
        elif typ == "net":
            g["gf"] = [fixed(1.0, T, S), f]
        else:
            g["gf"] = [fixed(round(1.0 - f["v"][0][0], 2), T, S), f]
    else:
        # parallel parts: the first is i itself, without a minimum
        d["lo"] = fixed(0.0, T, S)
        n = {"gauge": 2, "split": 1, "splitgauge": 2, "multi": rng.choice([1, 2]), "piecewise": rng.choice([1, 2, 2, 3])}[kind]
        prio = rng.random() < .6
        for j in range(1, n):
            last = kind in ("gauge", "splitgauge") or free()
            open_ = last and j == n - 1
            b = part(c=table(rng, T, S, uni(rng, 0 if open_ else -2, 3, 1)), hi=inf_ if open_ else table(rng, T, S, uni(rng, 0.5, 5, 2)))
            edges += [[u, b] for u in pre] + [[b, v] for v in suc]
            g["of"].append(b)
        if n > 1:
            d["hi"] = table(rng, T, S, uni(rng, 0.5, 4, 2))
            d["c"] = table(rng, T, S, uni(rng, -30, -10, 1) if prio else uni(rng, -3, 2, 1))
        elif kind == "piecewise" or kind == "multi":
            d["hi"] = table(rng, T, S, uni(rng, 0.5, 6, 2))
        elif kind == "split":
            d["hi"], d["c"] = inf_, fixed(0.0, T, S)
        if kind in ("multi", "split", "splitgauge"):
            x = rng.choice([1, 1, 2]) if len(suc) > 2 else 1
            out = [v for v in suc]
            rng.shuffle(out)
            main, extra = out[x:], out[:x]
            edges[:] = [e for e in edges if not (e[0] in g["of"] and e[1] in extra)]
            g["slots"] = ["m"] + ["s%d" % j for j in range(x)]
            g["extra"] = []
            fs = [round(rng.uniform(.5, 3), 2)] + [round(rng.uniform(.5, 3), 2) for _ in range(x)]
            if kind == "multi":
                r = rng.random()
                if r < .4:
                    fs = None
                elif r < .55 and x > 1:
                    fs[rng.randrange(1, x + 1)] = None
            lastn = g["of"][-1]
            for j in range(x):
                b = part()
                edges += [[u, b] for u in pre] + [[b, v] for v in main] + [[b, extra[j]]]
                g["extra"].append(b)
            if rng.random() < .3 and kind == "multi":     # a named outlet with two ways on
                v = rng.choice(main)
            g["factors"] = fs
            g["gf"] = [fixed(f, T, S) for f in fs if f is not None] if fs else []
            g["gn"] = [k for k, f in zip([lastn] + g["extra"], fs) if f is not None] if fs else []
            g["of"] = g["of"] + g["extra"]
            g["slot_of"] = {str(v): 0 for v in main}
            g["slot_of"].update({str(v): j + 1 for j, v in enumerate(extra)})
            if len(g["gf"]) < 2:
                g["gf"], g["gn"] = [], []
    if kind == "loss":
        g["gn"] = [i, g["lost"]] if g["gf"] else []
    case["cmp"].append(g)


def reaches(edges, nodes, a):
    """nodes that share a route with a (links only in between)"""
    f, b = {a}, {a}
    for _ in nodes:
        for u, v in edges:
            if u in f and (u == a or nodes[u]["k"] == "link"):
                f.add(v)
            if v in b and (v == a or nodes[v]["k"] == "link"):
                b.add(u)
    return f | b


def disjoint(rng, nodes, edges):
    fl = [i for i, d in enumerate(nodes) if d["k"] != "sto" and "grp" not in d]
    rng.shuffle(fl)
    out = []
    for i in fl:
        if all(i not in reaches(edges, nodes, j) for j in out):
            out.append(i)
    return out


def add_conv(rng, case):
    """a second domain fed by a demand of the first (water used to produce something else)"""
    T, S, nodes, edges = case["T"], case["S"], case["nodes"], case["edges"]
    outs = [i for i, d in enumerate(nodes) if d["k"] == "out"]
    if not outs:
        return
    o = rng.choice(outs)
    nodes[o]["hi"] = table(rng, T, S, uni(rng, 3, 10, 2))
    if rng.random() < .5:
        nodes[o]["c"] = fixed(0.0, T, S)
    nodes[o]["lo"] = fixed(0.0, T, S)
    ins, inv = [], []
    for j in range(rng.choice([1, 1, 2])):
        a, b = len(nodes), len(nodes) + 1
        nodes.append({"k": "in", "cls": "Input", "c": fixed(0.1 * j, T, S), "lo": fixed(0.0, T, S), "hi": fixed(inf, T, S), "name": "x%d" % j, "dom": 1})
        nodes.append({"k": "out", "cls": "Output", "c": table(rng, T, S, uni(rng, -15, -3, 1)), "lo": fixed(0.0, T, S), "hi": table(rng, T, S, uni(rng, 2, 9, 2)),
                      "name": "y%d" % j, "dom": 1})
        edges.append([a, b])
        ins.append(a)
        inv.append(rng.choice([200, 100, 50, 25, 125]))
        nodes[a]["cf"] = 100.0 / inv[-1]
    case["conv"].append({"o": o, "ins": ins, "inv": inv})


# ------------------------------------------------------------------------------------------------------------ build
def mk(m, sc, t, S):
    """the attribute as the model is given it"""
    v = t["v"]
    rep = t["rep"]
    if rep == "num":
        return v[0][0]
    if rep == "const":
        return P.ConstantParameter(m, v[0][0])
    if rep == "array":
        return P.ArrayIndexedParameter(m, [r[0] for r in v])
    if rep == "consts":
        return P.ConstantScenarioParameter(m, sc, v[0])
    if rep == "arrays":
        return P.ArrayIndexedScenarioParameter(m, sc, np.array(v))
    return Table(m, v)


def slots(case, i):
    """numbers of inputs (releasing) and outputs (filling) of a storage, every one connected"""
    nd = case["nodes"]
    who = lambda j: ("g", nd[j]["grp"]) if "grp" in nd[j] else j
    out, inn = len({who(v) for u, v in case["edges"] if u == i}), len({who(u) for u, v in case["edges"] if v == i})
    return min(out, case["nodes"][i]["nin"]), min(inn, case["nodes"][i]["nout"])


def build(case):
    T, S, step = case["T"], case["S"], case["step"]
    start = datetime.date.fromisoformat(case["start"])
    m = Model(start=case["start"], end=(start + datetime.timedelta(days=step * T - 1)).isoformat(), timestep=step, solver=case["solver"],
              solver_args=case["args"]) if case["args"] else \
        Model(start=case["start"], end=(start + datetime.timedelta(days=step * T - 1)).isoformat(), timestep=step, solver=case["solver"])
    sc = Scenario(m, "s", size=S)
    A = lambda t: mk(m, sc, t, S)
    dom = Domain("other")
    drng = random.Random(case["seed"] + 1)
    put_later = []

    def decoy():
        """a value which is replaced before it matters"""
        x = round(drng.uniform(0, 9), 2)
        return x if drng.random() < .5 else P.ConstantParameter(m, x)

    def put(o, attr, t):
        """give an attribute its value, at once, in place of another one, or in place of another one after a set up"""
        r = drng.random()
        if r < .25:
            setattr(o, attr, decoy())
        x = A(t) if t is not None else None
        if r < .1 and not case["args"]:
            put_later.append((o, attr, x))
        else:
            setattr(o, attr, x)

    def first_(t):
        """the value an attribute has when its owner is made, or another one"""
        return A(t) if drng.random() > .2 else None
    objs = []
    whole = {}
    for i, d in enumerate(case["nodes"]):
        cls, n = d["cls"], d["name"]
        if "grp" in d:
            if d["grp"] not in whole:
                whole[d["grp"]] = mk_compound(m, case, case["cmp"][d["grp"]], A)
            objs.append(whole[d["grp"]][1][i])
            continue
        kw = {"domain": dom} if d.get("dom") else {}
        if d["k"] == "sto":
            c = {"Storage": Storage, "Reservoir": Reservoir}[cls]
            if d["init"] is not None:
                kw["initial_volume"] = d["init"]
            if d["initpc"] is not None:
                kw["initial_volume_pc"] = d["initpc"]
            at = {"cost": d["c"], "min_volume": d["smin"], "max_volume": d["smax"]}
            made = {a: first_(t) for a, t in at.items()}
            o = c(m, n, outputs=slots(case, i)[1], inputs=slots(case, i)[0], **{a: decoy() if x is None else x for a, x in made.items()}, **kw)
            for a, x in made.items():
                if x is None:
                    put(o, a, at[a])
        elif cls == "Catchment":
            o = Catchment(m, n, cost=A(d["c"]), flow=A(d["hi"]))
        else:
            if "cf" in d:
                kw["conversion_factor"] = d["cf"]
            x = first_(d["c"])
            o = {"Input": Input, "Link": Link, "River": River, "Output": Output}[cls](m, n, cost=decoy() if x is None else x, **kw)
            if x is None:
                put(o, "cost", d["c"])
            if d["lo"]["v"][0][0] != 0.0 or d["lo"]["rep"] != "num":
                put(o, "min_flow", d["lo"])
            elif drng.random() < .1:
                put(o, "min_flow", None)
            if d["hi"]["v"][0][0] != inf:
                put(o, "max_flow", d["hi"])
            elif drng.random() < .1:
                put(o, "max_flow", None)
        objs.append(o)
    rng = random.Random(case["seed"])
    es = list(case["edges"])
    rng.shuffle(es)
    used = {}
    nd = case["nodes"]
    done = set()
    for u, v in es:
        kw = {}
        gu, gv = nd[u].get("grp"), nd[v].get("grp")
        if gu is not None and gu == gv:
            continue
        # parts of a compound node are connected by connecting it, once for each neighbour
        key = (u if gu is None else ("g", gu), v if gv is None else ("g", gv))
        if key in done:
            continue
        if gu is not None or gv is not None:
            done.add(key)
        a, b = objs[u] if gu is None else whole[gu][0], objs[v] if gv is None else whole[gv][0]
        if gu is not None and "slots" in case["cmp"][gu]:
            sl = case["cmp"][gu]["slot_of"].get(str(v), case["cmp"][gu]["slot_of"].get(str(head(case, gv))))
            kw["from_slot"] = case["cmp"][gu]["slots"][sl]
        if case["nodes"][u]["k"] == "sto" and slots(case, u)[0] > 1:
            kw["from_slot"] = used.setdefault((u, 0), 0) % 2
            used[u, 0] += 1
        if case["nodes"][v]["k"] == "sto" and slots(case, v)[1] > 1:
            kw["to_slot"] = used.setdefault((v, 1), 0) % 2
            used[v, 1] += 1
        a.connect(b, **kw)
    for c in case["conv"]:
        for i in c["ins"]:
            objs[c["o"]].connect(objs[i])
    vs = []
    for k, v in enumerate(case["vs"]):
        kw = {"initial_volume": v["init"]} if v["init"] is not None else {"initial_volume_pc": v["initpc"]}
        vs.append(VirtualStorage(m, "v%d" % k, [objs[i] for i in v["nodes"]], factors=v["f"], min_volume=A(v["smin"]), max_volume=A(v["smax"]), **kw))
        if drng.random() < .2:
            vs[-1].factors, vs[-1].nodes = [1.0], [objs[v["nodes"][0]]]
            vs[-1].nodes = [objs[i] for i in v["nodes"]]
            vs[-1].factors = v["f"]
    ag = []
    for k, g in enumerate(case["agg"]):
        a = AggregatedNode(m, "%s%d" % (rng.choice("az"), k), [objs[i] for i in g["nodes"]])
        if g["gf"]:
            a.factors = [A(f) for f in g["gf"]]
        if g["w"]:
            a.flow_weights = g["w"]
        if g["glo"]["v"][0][0] != -inf:
            put(a, "min_flow", g["glo"])
        if g["ghi"]["v"][0][0] != inf:
            put(a, "max_flow", g["ghi"])
        ag.append(a)
    case["_whole"] = [whole[k][0] for k in sorted(whole)]
    later = case.pop("_later", [])
    setup = case.pop("_later_setup", False)
    st = [AggregatedStorage(m, "w%d" % k, [objs[i] for i in ms]) for k, ms in enumerate(case["aggsto"])]
    if later or put_later:
        m.setup()
        for o, k, x in put_later:
            setattr(o, k, x)
        for o, kw in later:
            for k in kw:
                setattr(o, k, kw[k])
        if setup or case["args"] or rng.random() < .5:
            m.setup()
    return m, objs, vs, ag, st


def head(case, g):
    """the node a compound node was made of"""
    return None if g is None else case["cmp"][g]["parts"][0]


def aggs(case):
    """the aggregated nodes, and those inside compound nodes"""
    T, S = case["T"], case["S"]
    return case["agg"] + [{"nodes": g["gn"], "gf": g["gf"], "w": None, "glo": fixed(-inf, T, S), "ghi": fixed(inf, T, S)} for g in case.get("cmp", []) if g.get("gf")]


def mk_compound(m, case, g, A):
    """the compound node and the objects of its parts; it may be made with other data, and given its own after a first set up"""
    nodes, n = case["nodes"], g["name"]
    lim = lambda i: None if nodes[i]["hi"]["v"][0][0] == inf else A(nodes[i]["hi"])
    rng = random.Random("%d %s" % (case["seed"], n))
    later = {}

    def first(**kw):
        if case.get("retune") and rng.random() < .7:
            for k in list(kw):
                if rng.random() < .7:
                    later[k] = kw[k]
                    other = lambda v: rng.choice([v, 0.0, 1.5, -2.0 if "cost" in k else 4.0]) if v is None or isinstance(v, float) else rng.choice([0.0, 1.5])
                    if k == "loss_factor":
                        kw[k] = rng.choice([0.0, 0.0, 0.25, 0.5])
                        case["_later_setup"] = True
                    elif isinstance(kw[k], list):
                        kw[k] = [other(v) for v in kw[k]]
                    else:
                        kw[k] = other(kw[k])
        return kw

    o, parts = mk_compound_(m, case, g, A, nodes, n, lim, first)
    if later:
        case.setdefault("_later", []).append((o, later))
    return o, parts


def mk_compound_(m, case, g, A, nodes, n, lim, first):
    i = g["parts"][0]
    d = nodes[i]
    kind = g["kind"]
    if kind in ("break", "loss"):
        kw = {"cost": A(d["c"])}
        if not (d["lo"]["rep"] == "num" and d["lo"]["v"][0][0] == 0.0):
            kw["min_flow"] = A(d["lo"])
        if d["hi"]["v"][0][0] != inf:
            kw["max_flow"] = A(d["hi"])
        if kind == "break":
            o = BreakLink(m, n, **first(**kw))
            return o, {i: o.link}
        o = LossLink(m, n, loss_factor_type=g["type"], **first(loss_factor=A(g["f"]), **kw))
        return o, {i: o.net, g["gross"]: o.gross, g["lost"]: o.output}
    own = [p for p in g["of"] if p not in g.get("extra", [])]
    if kind == "gauge":
        o = RiverGauge(m, name=n, **first(mrf=lim(i), mrf_cost=A(d["c"]), cost=A(nodes[own[1]]["c"])))
    elif kind == "piecewise":
        o = PiecewiseLink(m, nsteps=len(own), name=n, **first(costs=[A(nodes[p]["c"]) for p in own], max_flows=[lim(p) for p in own]))
    elif kind == "multi":
        o = MultiSplitLink(m, len(own), name=n, costs=[A(nodes[p]["c"]) for p in own], max_flows=[lim(p) for p in own], extra_slots=len(g["extra"]),
                           slot_names=g["slots"], **({"factors": g["factors"]} if g["factors"] else {}))
    elif kind == "split":
        o = RiverSplit(m, name=n, factors=g["factors"], slot_names=g["slots"])
    else:
        o = RiverSplitWithGauge(m, name=n, factors=g["factors"], slot_names=g["slots"], **first(mrf=lim(i), mrf_cost=A(d["c"]), cost=A(nodes[own[1]]["c"])))
    return o, dict(zip(own + g.get("extra", []), o.sublinks))


def spec_net(case):
    """the network as the specification's value (nodes from 1, coefficients in hundredths)"""
    h = lambda x: int(round(100 * x))
    return {"kind": [d["k"] for d in case["nodes"]], "edges": [[u + 1, v + 1] for u, v in case["edges"]],
            "vs": [{"nodes": [i + 1 for i in v["nodes"]], "f": [h(x) for x in v["f"]]} for v in case["vs"]],
            "agg": [{"nodes": [i + 1 for i in g["nodes"]], "w": [h(x) for x in (g["w"] or [1.0] * len(g["nodes"]))]} for g in aggs(case)],
            "cmp": [[i + 1 for i in g["of"]] for g in case.get("cmp", [])], "nagg": len(case["agg"]),
            "conv": [{"o": c["o"] + 1, "ins": [i + 1 for i in c["ins"]], "inv": c["inv"]} for c in case["conv"]],
            "aggsto": [[i + 1 for i in ms] for ms in case["aggsto"]]}


# ----------------------------------------------------------------------------------- the linear problem (for witnesses)
def rows(case, d):
    """the rows in the specification's order, from the step's data"""
    nodes, E = case["nodes"], case["edges"]
    n, e = len(nodes), len(E)
    N = np.zeros((n, e))
    B = np.zeros((n, e))
    for j, (u, v) in enumerate(E):
        for i, nd in enumerate(nodes):
            a, b = (1 if v == i else 0), (1 if u == i else 0)
            N[i, j] = a if nd["k"] == "out" else a - b if nd["k"] == "sto" else b
            B[i, j] = a - b
    A, lo, hi = [], [], []

    def row(a, l, h):
        A.append(a)
        lo.append(l)
        hi.append(h)
    for i, nd in enumerate(nodes):
        if nd["k"] != "sto":
            row(N[i], d["lo"][i], d["hi"][i])
    for i, nd in enumerate(nodes):
        if nd["k"] == "link":
            row(B[i], 0, 0)
    for i, nd in enumerate(nodes):
        if nd["k"] == "sto":
            row(N[i], d["slo"][i], d["shi"][i])
    for k, v in enumerate(case["vs"]):
        row(sum(f * N[i] for i, f in zip(v["nodes"], v["f"])), -inf, d["vhi"][k])
    for k, g in enumerate(aggs(case)):
        row(sum(f * N[i] for i, f in zip(g["nodes"], g["w"] or [1.0] * len(g["nodes"]))), d["glo"][k], d["ghi"][k])
    for k, g in enumerate(aggs(case)):
        f = d["gf"][k]
        for j in range(1, len(f)):
            row(f[j] * N[g["nodes"][0]] - f[0] * N[g["nodes"][j]], 0, 0)
    for c in case["conv"]:
        row(sum(v / 100.0 * N[i] for i, v in zip(c["ins"], c["inv"])) - N[c["o"]], 0, 0)
    cost = np.zeros(e)
    for i, nd in enumerate(nodes):
        cost += d["c"][i] * N[i]
    return np.array(A), np.array(lo, float), np.array(hi, float), cost, N, B


def lp(A, lo, hi, c, ub=None):
    """min c x, lo <= A x <= hi, x >= 0; returns (status, x, y)"""
    eq = lo == hi
    u, l = ~eq & np.isfinite(hi), ~eq & np.isfinite(lo)
    Aub = np.vstack([A[u], -A[l]]) if u.any() or l.any() else None
    bub = np.concatenate([hi[u], -lo[l]]) if Aub is not None else None
    Aeq, beq = (A[eq], lo[eq]) if eq.any() else (None, None)
    r = linprog(c, A_ub=Aub, b_ub=bub, A_eq=Aeq, b_eq=beq, bounds=ub or (0, None), method="highs")
    if r.status != 0:
        return r.status, None, None
    y = np.zeros(len(lo))
    if eq.any():
        y[eq] = r.eqlin.marginals
    if Aub is not None:
        k = int(u.sum())
        y[u] += r.ineqlin.marginals[:k]
        y[l] -= r.ineqlin.marginals[k:]
    return 0, r.x, y


def farkas(A, lo, hi):
    """multipliers showing that no x >= 0 satisfies the rows (dual of minimising the violation)"""
    m, n = A.shape
    I = np.eye(m)
    A2 = np.hstack([A, I, -I])
    st, x, y = lp(A2, lo, hi, np.concatenate([np.zeros(n), np.ones(2 * m)]))
    return (0.0, None) if st != 0 else (float(x[n:].sum()), y)


def witness(A, lo, hi, N, B, nodes, flows, vol_rows):
    """edge flows that reproduce the reported node flows as well as possible (the specification judges how well)"""
    n, e = N.shape
    R, b = [], []
    for i, nd in enumerate(nodes):
        R.append(N[i])
        b.append(flows[i])
        if nd["k"] == "link":
            R.append(N[i] + B[i])
            b.append(flows[i])
    R, b = np.array(R), np.array(b)
    m = len(b)
    A2 = np.hstack([R, np.eye(m), -np.eye(m)])
    r = linprog(np.concatenate([np.zeros(e), np.ones(2 * m)]), A_eq=A2, b_eq=b, bounds=(0, None), method="highs")
    return r.x[:e] if r.status == 0 else np.zeros(e)


# ------------------------------------------------------------------------------------------------------ running a case
def data(case, t, s, vol, vvol):
    nodes, step = case["nodes"], case["step"]
    g = lambda x: x["v"][t][s]
    d = {"lo": [g(n["lo"]) for n in nodes], "hi": [g(n["hi"]) for n in nodes], "c": [g(n["c"]) for n in nodes],
         "smin": [g(n["smin"]) if n["k"] == "sto" else 0.0 for n in nodes], "smax": [g(n["smax"]) if n["k"] == "sto" else 0.0 for n in nodes],
         "vmin": [g(v["smin"]) for v in case["vs"]], "vmax": [g(v["smax"]) for v in case["vs"]],
         "glo": [g(a["glo"]) for a in aggs(case)], "ghi": [g(a["ghi"]) for a in aggs(case)],
         "gf": [[g(f) for f in a["gf"]] if a["gf"] else [] for a in aggs(case)]}
    d["slo"] = [-max(vol[i] - d["smin"][i], 0.0) / step for i in range(len(nodes))]
    d["shi"] = [max(d["smax"][i] - vol[i], 0.0) / step for i in range(len(nodes))]
    d["vhi"] = [max(x - mn, 0.0) / step for x, mn in zip(vvol, d["vmin"])]
    return d


def ev_data(d):
    Q = lambda xs: [q(x) for x in xs]
    return {"lo": Q(d["lo"]), "hi": Q(d["hi"]), "c": [q(x, 100) for x in d["c"]], "smin": Q(d["smin"]), "smax": Q(d["smax"]), "vmin": Q(d["vmin"]),
            "vmax": Q(d["vmax"]), "glo": Q(d["glo"]), "ghi": Q(d["ghi"]), "gf": [[q(x, 100) for x in f] for f in d["gf"]]}


def play(case):
    m, objs, vs, ag, st = build(case)
    whole = case.pop("_whole")
    nodes, S = case["nodes"], case["S"]
    ev = []
    m.setup()
    m.reset()
    vol = [[float(o.volume[s]) if hasattr(o, "volume") else 0.0 for o in objs] for s in range(S)]
    vvol = [[float(v.volume[s]) for v in vs] for s in range(S)]
    for s in range(S):
        ev.append({"k": "init", "s": s + 1, "vol": [q(x) for x in vol[s]], "vvol": [q(x) for x in vvol[s]],
                   "pc": [q(float(o.current_pc[s]), 10000) if hasattr(o, "volume") else 0 for o in objs],
                   "avol": [q(float(a.volume[s])) for a in st], "apc": [q(float(a.current_pc[s]), 10000) for a in st],
                   "aflow": [q(float(a.flow[s])) for a in st], "prev": [q(float(o.prev_flow[s])) for o in objs]})
    for t in range(case["T"]):
        ds = [data(case, t, s, vol[s], vvol[s]) for s in range(S)]
        try:
            m.step()
        except Exception as e:
            for s in range(S):
                A, lo, hi, c, N, B = rows(case, ds[s])
                gap, y = farkas(A, lo, hi)
                if gap > 1e-6:
                    break
            else:
                y = np.zeros(len(lo))
            ev.append(dict(ev_data(ds[s]), k="fail", s=s + 1, y=[q(v, 10000) for v in y], error=type(e).__name__))
            break
        for s in range(S):
            d = ds[s]
            A, lo, hi, c, N, B = rows(case, d)
            flows = [float(o.flow[s]) for o in objs]
            x = witness(A, lo, hi, N, B, nodes, flows, None)
            stt, xo, y = lp(A, lo, hi, c)
            # multipliers the specification's arithmetic (32 bits) can judge
            ok = stt == 0 and (np.abs(A).T @ np.abs(y)).max() < 1500
            e = dict(ev_data(d), k="step", s=s + 1, flow=[q(f) for f in flows], x=[q(v) for v in x], feas=stt == 0, cert=bool(ok),
                     y=[q(v, 10000) for v in (y if ok else np.zeros(len(lo)))])
            vol[s] = [float(o.volume[s]) if hasattr(o, "volume") else 0.0 for o in objs]
            vvol[s] = [float(v.volume[s]) for v in vs]
            e.update(vol=[q(v) for v in vol[s]], vvol=[q(v) for v in vvol[s]], gflow=[q(float(a.flow[s])) for a in ag], cflow=[q(float(o.flow[s])) for o in whole],
                     pc=[q(float(o.current_pc[s]), 10000) if hasattr(o, "volume") else 0 for o in objs],
                     vflow=[q(float(v.flow[s])) for v in vs], vpc=[q(float(v.current_pc[s]), 10000) for v in vs],
                     avol=[q(float(a.volume[s])) for a in st], apc=[q(float(a.current_pc[s]), 10000) for a in st], aflow=[q(float(a.flow[s])) for a in st],
                     prev=[q(float(o.prev_flow[s])) for o in objs])
            ev.append(e)
    return {"ev": ev, "net": spec_net(case), "days": case["step"], "S": S,
            "init": [{"v": q(n["init"]) if n["k"] == "sto" and n["init"] is not None else -1, "pc": q(n["initpc"], 100) if n["k"] == "sto" and n["initpc"] is not None else -1,
                      "var": n["k"] == "sto" and n["smax"]["rep"] not in ("num", "const"), "mx": q(n["smax"]["v"][0][0]) if n["k"] == "sto" else 0} for n in nodes],
            "vinit": [{"v": q(v["init"]) if v["init"] is not None else -1, "pc": q(v["initpc"], 100), "var": False, "mx": q(v["smax"]["v"][0][0])} for v in case["vs"]]}
