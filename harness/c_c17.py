"""C17: parameters that combine others against Combine.tla"""
import datetime, random
import numpy as np
from common import q, SOLVERS, prepare, period
from c_c15 import near
from c_c16 import members_
from pywr.core import Model, Input, Output, Storage, Scenario
import pywr.parameters as P
from pywr.parameters import Parameter, IndexParameter, load_parameter
from pywr.parameters.parameters import ScaledProfileParameter, FunctionParameter
from pywr.parameters.groundwater import KeatingStreamFlowParameter

BASE = {"fn": "", "a": [], "n": [], "xs": [], "ys": [], "yy": [], "sc": 1, "src": "p", "fill": [], "node": 1, "cap": 0, "floor": 0, "head": 0}
CAP, START = 20.0, 10.0


class Tab(Parameter):
    """the caller's own data, by timestep and scenario combination"""
    def __init__(self, model, rows, **kwargs):
        super().__init__(model, **kwargs)
        self.rows = rows

    def value(self, ts, si):
        return self.rows[ts.index][si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


class XTab(IndexParameter):
    def __init__(self, model, rows, **kwargs):
        super().__init__(model, **kwargs)
        self.rows = rows

    def index(self, ts, si):
        return self.rows[ts.index][si.global_id]

    @classmethod
    def load(cls, model, data):
        return cls(model, **data)


Tab.register()
XTab.register()


def custom(v):
    return 2 * v[0] - v[-1]


def num(rng, lo=-9.0, hi=9.0):
    return round(rng.uniform(lo, hi) * 8) / 8 if rng.random() < .5 else round(rng.uniform(lo, hi), 3)


def line(d, x):
    return float(np.interp(x, d["xs"], d["ys"]))


def poly_bounds(cs, lo, hi):
    m = max(abs(lo), abs(hi))
    b = sum(abs(c) * m ** i for i, c in enumerate(cs))
    return -b, b


def source(d, B):
    if d["src"] == "p":
        return B[d["a"][0]]
    return {"vol": (0, CAP), "pc": (0, 1), "flow": (0, 8)}[d["src"]]


def bounds(d, B):
    """an interval the value stays in, or None if a definition is not to be used"""
    op, a, n = d["op"], [B[i] for i in d["a"]], d["n"]
    if any(x is None for x in a):
        return None
    lo, hi = [x[0] for x in a], [x[1] for x in a]
    if op in ("tab", "xtab"):
        r = (d["lo"], d["hi"])
    elif op == "const":
        r = (n[0], n[0])
    elif op in ("scen", "xscen"):
        r = (min(n), max(n))
    elif op in ("agg", "xagg"):
        f = d["fn"]
        if f == "product":
            if len(a) > 4 or any(max(abs(x), abs(y)) > 9 for x, y in a):
                return None
            b = float(np.prod([max(abs(x), abs(y)) for x, y in a]))
            r = (0.0 if min(lo) >= 0 else -b, b)
        elif f == "sum":
            r = (sum(lo), sum(hi))
        elif f == "custom":
            r = (2 * lo[0] - hi[-1], 2 * hi[0] - lo[-1])
        elif f in ("any", "all"):
            r = (0, 1)
        else:
            r = (min(lo), max(hi))
    elif op == "div":
        if lo[1] < .2 and hi[1] > -.2 or max(abs(lo[0]), abs(hi[0])) > 150:
            return None
        m = max(abs(lo[0]), abs(hi[0])) / min(abs(lo[1]), abs(hi[1]))
        r = (-m, m)
    elif op == "neg":
        r = (-hi[0], -lo[0])
    elif op in ("max", "nmax", "min", "nmin"):
        x, y = (lo[0], hi[0]) if op in ("max", "min") else (-hi[0], -lo[0])
        r = (max(x, n[0]), max(y, n[0])) if "max" in op else (min(x, n[0]), min(y, n[0]))
    elif op == "off":
        r = (lo[0] + n[0], hi[0] + n[0])
    elif op == "scale":
        if max(abs(lo[0]), abs(hi[0])) > 200:
            return None
        r = tuple(sorted((lo[0] * n[0], hi[0] * n[0])))
    elif op == "pick":
        if lo[0] < 0 or (hi[0] > len(a) - 2 and not d["short"]):
            return None
        r = (min(lo[1:]), max(hi[1:]))
    elif op == "wrap":
        r = (min(lo), max(hi))
    elif op == "interp":
        s = source(d, B)
        if not d["fill"] and not d["short"] and (s[0] < d["xs"][0] + .01 and d["src"] == "p" or s[1] > d["xs"][-1] - .01):
            return None
        y = d["ys"] + d["fill"]
        r = (min(y), max(y))
    elif op == "quad":
        if any(x < d["xs"][0] + .01 or y > d["xs"][-1] - .01 for x, y in a):
            return None
        b = max(map(abs, d["ys"])) * (d["xs"][-1] - d["xs"][0])
        r = (-b, b)
    elif op == "piece":
        b = max(map(abs, d["ys"])) * d["xs"][-1]
        r = (-b, b)
    elif op == "poly":
        s = source(d, B)
        x = [s[0] * n[0] + n[1], s[1] * n[0] + n[1]]
        if max(map(abs, x)) > 5:
            return None
        r = poly_bounds(d["ys"], *x)
    elif op == "poly2":
        s = {"vol": (0, CAP), "pc": (0, 1)}[d["fn"]]
        x = max(abs(s[0] * n[0] + n[1]), abs(s[1] * n[0] + n[1]))
        y = max(abs(lo[0] * n[2] + n[3]), abs(hi[0] * n[2] + n[3]))
        if x > 2 or y > 2:
            return None
        r = (-60, 60)
    elif op == "disc":
        r = (0, 5)
    elif op == "state":
        s = source(d, B)
        r = (min(s[0], n[0]), max(s[1], n[0]))
    elif op == "hydro":
        if lo[0] < .5 or hi[0] > 12 or not d["cap"]:
            return None
        c = B[d["cap"] - 1]
        if c[0] < 0:
            return None
        r = (0, max(c[1], B[d["floor"] - 1][1] if d["floor"] else 0))
    elif op == "keat":
        if max(abs(lo[0]), abs(hi[0])) > 40:
            return None
        r = (0, 2 * sum(d["ys"]) * n[0] * 80)
    elif op == "step":
        r = (min(0, n[1]), max(0, n[1]))
    elif op == "rect":
        r = (min(0, *n[1:3]), max(0, *n[1:3]))
    elif op == "logi":
        r = (min(0, n[1]), max(0, n[1]))
    elif op == "func":
        r = (0, 60)
    return r if max(abs(r[0]), abs(r[1])) <= 900 else None


INDEX = ("xtab", "xscen", "xagg")
NOJSON = ("scen", "xscen", "func", "keat")


def table(rng, lo=None, hi=None):
    k = rng.randrange(2, 6)
    a = (num(rng, -9, 3) if lo is None else lo - rng.randrange(0, 8) / 4 - .125)
    b = (a + num(rng, 1, 12) if hi is None else hi + rng.randrange(0, 8) / 4 + .125)
    xs = sorted({round(a, 3), round(b, 3)} | {round(a + (b - a) * rng.randrange(1, 8) / 8, 3) for _ in range(k - 2)})
    return xs, [num(rng, -6, 9) for _ in xs]


def define(rng, case, ds, B):
    """a random definition over the parameters so far"""
    n = len(ds)
    d = dict(BASE)
    any_ = [i for i in range(n) if B[i] is not None]
    idx = [i for i in any_ if ds[i]["op"] in INDEX]
    ops = ["tab", "xtab", "const", "scen", "xscen"] if n < 6 else \
        ["agg"] * 4 + ["xagg"] * 2 + ["div", "div", "neg", "max", "nmax", "min", "nmin", "off", "scale", "pick", "pick", "wrap", "interp", "interp", "interp", "quad",
         "piece", "poly", "poly", "poly2", "disc", "state", "hydro", "keat", "step", "rect", "logi", "func", "tab", "xtab"]
    d["op"] = op = rng.choice(ops)
    pick = lambda: rng.choice(any_)
    size = lambda: case["sizes"][d["sc"] - 1]
    d["sc"] = rng.randrange(len(case["sizes"])) + 1
    if op == "tab":
        d.update(lo=-9, hi=9) if rng.random() < .5 else d.update(lo=.5, hi=9)
    elif op == "xtab":
        d.update(lo=rng.choice([0, 0, 0, -2]), hi=rng.choice([1, 2, 3]))
    elif op == "const":
        d["n"] = [num(rng)]
    elif op == "scen":
        d["n"] = [num(rng) for _ in range(size())]
    elif op == "xscen":
        d["n"] = [rng.randrange(0, 4) for _ in range(size())]
    elif op == "agg":
        d["fn"] = rng.choice(["sum", "product", "product", "max", "min", "mean", "median", "median", "custom"])
        d["a"] = [pick() for _ in range(rng.randrange(1, 6))]
        d["a"] = list(dict.fromkeys(d["a"]))
    elif op == "xagg":
        if not idx:
            return None
        d["fn"] = rng.choice(["sum", "product", "max", "min", "any", "all", "custom"])
        d["a"] = list(dict.fromkeys(rng.choice(idx) for _ in range(rng.randrange(1, 4))))
    elif op == "div":
        d["a"] = [pick(), pick()]
        if d["a"][0] == d["a"][1]:
            return None
    elif op in ("neg",):
        d["a"] = [pick()]
    elif op in ("max", "nmax", "min", "nmin", "off", "scale"):
        d["a"], d["n"] = [pick()], [rng.choice([0.0, num(rng), num(rng)])]
    elif op == "pick":
        if not idx:
            return None
        i = rng.choice(idx)
        d["short"] = rng.random() < .06
        d["a"] = [i] + [pick() for _ in range(max(1, int(B[i][1]) + (0 if d["short"] else 1) + rng.randrange(0, 2)))]
    elif op == "wrap":
        d["a"] = [pick() for _ in range(size())]
    elif op == "interp":
        d["src"] = rng.choice(["p", "p", "vol", "flow"])
        d["a"] = [pick()] if d["src"] == "p" else []
        d["node"] = rng.randrange(3) + 1
        s = source(d, B)
        d["short"] = rng.random() < .06
        d["xs"], d["ys"] = table(rng, *(s if not d["short"] else (s[0] + 1, s[1] - (s[1] - s[0]) / 4 if s[1] - s[0] > 2 else s[1] + 1.5))) if rng.random() < .7 else table(rng)
        if rng.random() < .4:
            d["fill"] = [num(rng), num(rng)]
        if d["xs"][-1] - d["xs"][0] > 40:
            return None
    elif op == "quad":
        d["a"] = [pick() for _ in range(rng.choice([1, 2]))]
        if len(set(d["a"])) < len(d["a"]):
            return None
        d["xs"], d["ys"] = table(rng, min([0] + [B[i][0] for i in d["a"]]), max([0] + [B[i][1] for i in d["a"]]))
        if d["xs"][-1] - d["xs"][0] > 40:
            return None
    elif op == "piece":
        d["a"] = [pick()]
        d["xs"] = sorted({num(rng, .5, 12) for _ in range(rng.randrange(1, 5))})
        d["ys"] = [num(rng, -3, 6) for _ in d["xs"]]
    elif op == "poly":
        d["src"] = rng.choice(["p", "vol", "pc", "flow", "flow"])
        d["a"] = [pick()] if d["src"] == "p" else []
        d["node"] = rng.randrange(3) + 1
        d["ys"] = [num(rng, -3, 3) for _ in range(rng.randrange(1, 5))]
        d["n"] = [rng.choice([1.0, .25, .5, -.125]), rng.choice([0.0, 1.0, -.5])]
    elif op == "poly2":
        d["fn"] = rng.choice(["vol", "pc"])
        d["a"] = [pick()]
        d["yy"] = [[num(rng, -1, 1) for _ in range(rng.randrange(1, 4))]]
        d["yy"] += [[num(rng, -1, 1) for _ in d["yy"][0]] for _ in range(rng.randrange(0, 3))]
        d["n"] = [rng.choice([1.0, .1, -.05]), rng.choice([0.0, .5]), rng.choice([1.0, .125, -.25]), rng.choice([0.0, -.5])]
    elif op == "disc":
        d["n"] = [rng.choice([.035, .05, .1, .015, 0.0]), case["year"] + rng.randrange(-12, 13)]
    elif op == "state":
        d["src"], d["node"] = rng.choice(["vol", "pc", "flow"]), rng.randrange(3) + 1
        d["n"] = [num(rng, 0, 6) if d["src"] == "flow" else 0.0]
    elif op == "hydro":
        d["a"] = [pick()]
        d["head"] = (pick() + 1) if rng.random() < .8 else 0
        d["cap"] = pick() + 1
        d["floor"] = (pick() + 1) if rng.random() < .4 else 0
        d["n"] = [num(rng, -2, 4) if d["head"] else num(rng, .5, 9), rng.choice([0.0, 0.0, 1.0, 2.5]), rng.choice([1.0, .8, .55]), rng.choice([1.0, 2.0]), rng.choice([1.0, .95])]
        if len({x for x in [d["a"][0] + 1, d["head"], d["cap"], d["floor"]] if x}) < sum(1 for x in [d["a"][0] + 1, d["head"], d["cap"], d["floor"]] if x):
            return None
        if d["head"] and B[d["head"] - 1][1] > 100:
            return None
    elif op == "keat":
        d["a"] = [rng.choice([i for i in any_])]
        if ds[d["a"][0]]["op"] not in ("tab", "interp", "poly", "pick"):
            return None
        k = rng.randrange(1, 4)
        d["xs"], d["ys"], d["n"] = [num(rng, -5, 8) for _ in range(k)], [num(rng, .1, 2) for _ in range(k)], [rng.choice([1.0, .5])]
    elif op == "step":
        d["n"] = [num(rng, -1, 1), num(rng, -5, 9)]
    elif op == "rect":
        hi = rng.choice([1.0, 2.0, 3.0])
        d["n"] = [round(rng.uniform(-hi, hi), 2), num(rng, 0, 4), num(rng, 4, 9), hi]
    elif op == "logi":
        d["n"] = [num(rng, -5, 5), num(rng, -5, 9), rng.choice([1.0, .5])]
    return d


def mutate(rng, case, ds):
    """what the caller changes before another run"""
    out = [dict(d) for d in ds]
    for i, d in enumerate(out):
        if rng.random() < .5 or i < 3:
            continue
        op = d["op"]
        if op == "agg":
            c = rng.random()
            if c < .4:
                d["fn"] = rng.choice(["sum", "max", "min", "mean", "median", "custom", "product"])
            elif c < .7 and len(d["a"]) > 1:
                d["a"] = [x for x in d["a"] if x != rng.choice(d["a"])] or d["a"]
            else:
                x = rng.randrange(i)
                if x not in d["a"]:
                    d["a"] = d["a"] + [x]
        elif op == "xagg":
            d["fn"] = rng.choice(["sum", "product", "max", "min", "any", "all", "custom"])
        elif op in ("max", "nmax", "min", "nmin", "off"):
            d["n"] = [num(rng)]
        elif op == "const":
            d["n"] = [num(rng)]
        elif op in ("step", "rect", "logi"):
            d["n"] = [round(rng.uniform(-1, 1), 2)] + d["n"][1:]
        elif op == "poly":
            d["ys"] = [num(rng, -3, 3) for _ in range(rng.randrange(1, 5))]
        elif op == "interp" and d["src"] == "p":
            x = rng.randrange(i)
            if rng.random() < .4:
                d["a"] = [x]
        elif op == "div":
            x = rng.randrange(i)
            if x not in d["a"]:
                d["a"] = [x, d["a"][1]] if rng.random() < .5 else [d["a"][0], x]
    return out


def check(ds):
    B = []
    for d in ds:
        B.append(bounds(d, B))
        if B[-1] is None:
            return False
    return True


def gen(rng):
    step = rng.choice([1, 1, 2, 7, 30, 365])
    sizes = [rng.randrange(2, 4) for _ in range(rng.choice([1, 1, 2]))]
    full = [[]]
    for s in sizes:
        full = [x + [i] for x in full for i in range(s)]
    combos = slices = None
    c = rng.random()
    if c < .35:
        combos = [rng.choice(full) for _ in range(rng.randrange(1, 5))]
    elif c < .6:
        slices = [rng.choice([[None, None, None], [1, None, None], [None, -1, None], [None, None, -1]]) for s in sizes]
    a = near(rng, rng.choice([1999, 2000, 2015, 2016, 2020]))
    n = rng.randrange(3, 12)
    case = {"step": step, "sizes": sizes, "combos": combos, "slices": slices, "start": a.isoformat(), "n": n, "year": a.year, "solver": rng.choice(SOLVERS),
            "json": rng.random() < .5, "seed": rng.randrange(10 ** 6)}
    ds, B = [], []
    for _ in range(3):
        ds.append(dict(BASE, op="tab", lo=0, hi=8))
        B.append((0, 8))
    want = rng.randrange(8, 22)
    for _ in range(400):
        if len(ds) >= want:
            break
        d = define(rng, case, ds, B)
        if d is None or (case["json"] and (d["op"] in NOJSON or d["fn"] == "custom")):
            continue
        d["a"] = list(d["a"])
        b = bounds(d, B)
        if b is None:
            continue
        ds.append(d)
        B.append(b)
    runs = [{"ds": ds, "restart": rng.randrange(1, n) if rng.random() < .25 else None}]
    if not case["json"] or True:
        for _ in range(rng.choice([0, 1, 1, 2])):
            new = mutate(rng, case, runs[-1]["ds"])
            if case["json"] and any(d["fn"] == "custom" for d in new):
                new = runs[-1]["ds"]
            runs.append({"ds": new if check(new) else runs[-1]["ds"], "restart": rng.randrange(1, n) if rng.random() < .25 else None})
    case["runs"] = runs
    return case


def data(case, i, d, width):
    rng = random.Random(case["seed"] * 100 + i)
    if d["op"] == "xtab":
        return [[rng.randrange(d["lo"], d["hi"] + 1) for _ in range(width)] for _ in range(case["n"])]
    return [[num(rng, d["lo"], d["hi"]) for _ in range(width)] for _ in range(case["n"])]


def fill_kw(d):
    return {"bounds_error": False, "fill_value": tuple(d["fill"])} if d["fill"] else None


def api(m, sc, case, ds, i, ps, width, nodes):
    """the parameter of a definition, made by calling its class"""
    d = ds[i]
    op, n = d["op"], d["n"]
    a = [ps[j] for j in d["a"]]
    name = "p%d" % i
    scen = sc[d["sc"] - 1]
    st = nodes["st"]
    node = [nodes["a"], nodes["b"], nodes["a2"]][d["node"] - 1]
    if op == "tab":
        return Tab(m, data(case, i, d, width), name=name)
    if op == "xtab":
        return XTab(m, data(case, i, d, width), name=name)
    if op == "const":
        return P.ConstantParameter(m, n[0], name=name)
    if op == "scen":
        return P.ConstantScenarioParameter(m, scen, n, name=name)
    if op == "xscen":
        return P.ConstantScenarioIndexParameter(m, scen, n, name=name)
    if op in ("agg", "xagg"):
        return (P.AggregatedParameter if op == "agg" else P.AggregatedIndexParameter)(m, a, agg_func=custom if d["fn"] == "custom" else d["fn"], name=name)
    if op == "div":
        return P.DivisionParameter(m, a[0], a[1], name=name)
    if op == "neg":
        return P.NegativeParameter(m, a[0], name=name)
    if op in ("max", "nmax", "min", "nmin"):
        return {"max": P.MaxParameter, "nmax": P.NegativeMaxParameter, "min": P.MinParameter, "nmin": P.NegativeMinParameter}[op](m, a[0], threshold=n[0], name=name)
    if op == "off":
        return P.OffsetParameter(m, a[0], offset=n[0], name=name)
    if op == "scale":
        return ScaledProfileParameter(m, n[0], a[0], name=name)
    if op == "pick":
        return P.IndexedArrayParameter(m, a[0], a[1:], name=name)
    if op == "wrap":
        return P.ScenarioWrapperParameter(m, scen, a, name=name)
    if op == "interp":
        kw = {"name": name, "interp_kwargs": fill_kw(d)}
        if d["src"] == "p":
            return P.InterpolatedParameter(m, a[0], d["xs"], d["ys"], **kw)
        if d["src"] == "vol":
            return P.InterpolatedVolumeParameter(m, st, d["xs"], d["ys"], **kw)
        return P.InterpolatedFlowParameter(m, node, d["xs"], d["ys"], **kw)
    if op == "quad":
        return P.InterpolatedQuadratureParameter(m, a[0], d["xs"], d["ys"], lower_parameter=a[1] if len(a) > 1 else None, name=name)
    if op == "piece":
        return P.PiecewiseIntegralParameter(m, a[0], d["xs"], d["ys"], name=name)
    if op == "poly":
        kw = {"scale": n[0], "offset": n[1], "name": name}
        if d["src"] == "p":
            return P.Polynomial1DParameter(m, d["ys"], parameter=a[0], **kw)
        if d["src"] == "flow":
            return P.Polynomial1DParameter(m, d["ys"], node=node, **kw)
        return P.Polynomial1DParameter(m, d["ys"], storage_node=st, use_proportional_volume=d["src"] == "pc", **kw)
    if op == "poly2":
        return P.Polynomial2DStorageParameter(m, d["yy"], st, a[0], use_proportional_volume=d["fn"] == "pc", storage_scale=n[0], storage_offset=n[1],
                                              parameter_scale=n[2], parameter_offset=n[3], name=name)
    if op == "disc":
        return P.DiscountFactorParameter(m, n[0], n[1], name=name)
    if op == "state":
        if d["src"] == "flow":
            return P.FlowParameter(m, node, initial_value=n[0], name=name)
        return P.StorageParameter(m, st, use_proportional_volume=d["src"] == "pc", name=name)
    if op == "hydro":
        g = lambda k: ps[d[k] - 1] if d[k] else None
        kw = {k: v for k, v in {"water_elevation_parameter": g("head"), "max_flow": g("cap"), "min_flow": g("floor")}.items() if v is not None}
        return P.HydropowerTargetParameter(m, a[0], turbine_elevation=n[0], min_head=n[1], efficiency=n[2], flow_unit_conversion=n[3], density=n[4] * 1000,
                                           energy_unit_conversion=1e-4, name=name, **kw)
    if op == "keat":
        s = Storage(m, "aq%d" % i, max_volume=1.0, initial_volume=0.0, level=a[0])
        nodes["a2"].connect(s)
        s.connect(nodes["b2"])
        return KeatingStreamFlowParameter(m, s, d["xs"], d["ys"], coefficient=n[0], name=name)
    if op == "step":
        return P.BinaryStepParameter(m, value=n[0], output=n[1], name=name)
    if op == "rect":
        return P.RectifierParameter(m, value=n[0], min_output=n[1], max_output=n[2], lower_bounds=-n[3], upper_bounds=n[3], name=name)
    if op == "logi":
        return P.LogisticParameter(m, value=n[0], max_output=n[1], growth_rate=n[2], name=name)
    if op == "func":
        return FunctionParameter(m, None, lambda par, ts, si: ts.index + .25 * (si.global_id + 1), name=name)
    raise KeyError(op)


def doc(case, ds, i, width):
    """the same in a document"""
    d = ds[i]
    op, n = d["op"], d["n"]
    a = ["p%d" % j for j in d["a"]]
    scen = "s%d" % (d["sc"] - 1)
    node = ["a", "b", "a2"][d["node"] - 1]
    kw = {} if not d["fill"] else {"interp_kwargs": {"bounds_error": False, "fill_value": list(d["fill"])}}
    if op in ("tab", "xtab"):
        return {"type": op, "rows": data(case, i, d, width)}
    if op == "const":
        return {"type": "constant", "value": n[0]}
    if op in ("agg", "xagg"):
        return {"type": "aggregated" if op == "agg" else "aggregatedindex", "agg_func": d["fn"], "parameters": a}
    if op == "div":
        return {"type": "division", "numerator": a[0], "denominator": a[1]}
    if op == "neg":
        return {"type": "negative", "parameter": a[0]}
    if op in ("max", "nmax", "min", "nmin"):
        t = {"max": "max", "nmax": "negativemax", "min": "min", "nmin": "negativemin"}[op]
        return {"type": t, "parameter": a[0], "threshold": n[0]}
    if op == "off":
        return {"type": "offset", "parameter": a[0], "offset": n[0]}
    if op == "scale":
        return {"type": "scaledprofile", "scale": n[0], "profile": a[0]}
    if op == "pick":
        return {"type": "indexedarray", "index_parameter": a[0], "params" if i % 2 else "parameters": a[1:]}
    if op == "wrap":
        return {"type": "scenariowrapper", "scenario": scen, "parameters": a}
    if op == "interp":
        if d["src"] == "p":
            return dict(kw, type="interpolated", parameter=a[0], x=d["xs"], y=d["ys"])
        if d["src"] == "vol":
            return dict(kw, type="interpolatedvolume", node="st", volumes=d["xs"], values=d["ys"])
        return dict(kw, type="interpolatedflow", node=node, flows=d["xs"], values=d["ys"])
    if op == "quad":
        return dict({"lower_parameter": a[1]} if len(a) > 1 else {}, type="interpolatedquadrature", upper_parameter=a[0], x=d["xs"], y=d["ys"])
    if op == "piece":
        return {"type": "piecewiseintegral", "parameter": a[0], "x": d["xs"], "y": d["ys"]}
    if op == "poly":
        e = {"type": "polynomial1d", "coefficients": d["ys"], "scale": n[0], "offset": n[1]}
        e.update({"parameter": a[0]} if d["src"] == "p" else {"node": node} if d["src"] == "flow" else {"storage_node": "st", "use_proportional_volume": d["src"] == "pc"})
        return e
    if op == "poly2":
        return {"type": "polynomial2dstorage", "coefficients": d["yy"], "storage_node": "st", "parameter": a[0], "use_proportional_volume": d["fn"] == "pc",
                "storage_scale": n[0], "storage_offset": n[1], "parameter_scale": n[2], "parameter_offset": n[3]}
    if op == "disc":
        return {"type": "discountfactor", "rate": n[0], "base_year": n[1]}
    if op == "state":
        if d["src"] == "flow":
            return {"type": "flow", "node": node, "initial_value": n[0]}
        return {"type": "storage", "storage_node": "st", "use_proportional_volume": d["src"] == "pc"}
    if op == "hydro":
        e = {"type": "hydropowertarget", "target": a[0], "turbine_elevation": n[0], "min_head": n[1], "efficiency": n[2], "flow_unit_conversion": n[3],
             "density": n[4] * 1000, "energy_unit_conversion": 1e-4}
        for k, key in (("head", "water_elevation_parameter"), ("cap", "max_flow"), ("floor", "min_flow")):
            if d[k]:
                e[key] = "p%d" % (d[k] - 1)
        return e
    if op == "step":
        return {"type": "binarystep", "value": n[0], "output": n[1]}
    if op == "rect":
        return {"type": "rectifier", "value": n[0], "min_output": n[1], "max_output": n[2], "lower_bounds": -n[3], "upper_bounds": n[3]}
    if op == "logi":
        return {"type": "logistic", "value": n[0], "max_output": n[1], "growth_rate": n[2]}
    raise KeyError(op)


def apply(m, ps, old, new):
    for i, (x, y) in enumerate(zip(old, new)):
        if x == y:
            continue
        p, op = ps[i], y["op"]
        if op in ("agg", "xagg"):
            if x["fn"] != y["fn"]:
                p.agg_func = custom if y["fn"] == "custom" else y["fn"].upper() if i % 2 else y["fn"]
            for j in x["a"]:
                if j not in y["a"]:
                    p.remove(ps[j])
            for j in y["a"]:
                if j not in x["a"]:
                    p.add(ps[j])
        elif op in ("max", "nmax", "min", "nmin"):
            p.threshold = y["n"][0]
        elif op in ("off", "const"):
            p.set_double_variables(np.array([y["n"][0]]))
        elif op in ("step", "rect", "logi"):
            p.set_double_variables(np.array([y["n"][0]]))
        elif op == "poly":
            p.coefficients = np.array(y["ys"])
        elif op == "interp":
            p.parameter = ps[y["a"][0]]
        elif op == "div":
            if x["a"][0] != y["a"][0]:
                p.numerator = ps[y["a"][0]]
            if x["a"][1] != y["a"][1]:
                p.denominator = ps[y["a"][1]]


def build(case, width):
    rng = random.Random(case["seed"])
    ds = case["runs"][0]["ds"]
    a = datetime.date.fromisoformat(case["start"])
    end = (a + datetime.timedelta(case["step"] * (case["n"] - 1))).isoformat()
    if case["json"]:
        scen = [dict({"name": "s%d" % i, "size": s}, **({"slice": case["slices"][i]} if case["slices"] else {})) for i, s in enumerate(case["sizes"])]
        pars = [("p%d" % i, doc(case, ds, i, width)) for i in range(len(ds))]
        rng.shuffle(pars)
        nodes = [{"name": "a", "type": "Input", "max_flow": "p0"}, {"name": "b", "type": "Output", "max_flow": "p1", "cost": -10},
                 {"name": "a2", "type": "Input", "max_flow": "p2"}, {"name": "b2", "type": "Output", "cost": -5},
                 {"name": "st", "type": "Storage", "max_volume": CAP, "initial_volume": START, "cost": -1}]
        rng.shuffle(nodes)
        d = {"metadata": {"minimum_version": "0.1"}, "timestepper": {"start": case["start"], "end": end, "timestep": case["step"]}, "solver": {"name": case["solver"]},
             "scenarios": scen, "nodes": nodes, "edges": [["a", "st"], ["st", "b"], ["a2", "b2"]], "parameters": dict(pars)}
        if case["combos"] is not None:
            d["scenario_combinations"] = case["combos"]
        m = Model.load(d, solver=case["solver"])
        nodes = {k: m.nodes[k] for k in ("a", "b", "a2", "b2", "st")}
        return m, nodes, [m.parameters["p%d" % i] for i in range(len(ds))]
    m = Model(start=case["start"], end=end, timestep=case["step"], solver=case["solver"])
    sc = [Scenario(m, "s%d" % i, size=s, slice=slice(*case["slices"][i]) if case["slices"] else None) for i, s in enumerate(case["sizes"])]
    if case["combos"] is not None:
        m.scenarios.user_combinations = case["combos"]
    nodes = {"a": Input(m, "a"), "b": Output(m, "b", cost=-10), "a2": Input(m, "a2"), "b2": Output(m, "b2", cost=-5),
             "st": Storage(m, "st", max_volume=CAP, initial_volume=START, cost=-1)}
    nodes["a"].connect(nodes["st"])
    nodes["st"].connect(nodes["b"])
    nodes["a2"].connect(nodes["b2"])
    ps = []
    for i in range(len(ds)):
        ps.append(api(m, sc, case, ds, i, ps, width, nodes))
    nodes["a"].max_flow, nodes["b"].max_flow, nodes["a2"].max_flow = ps[:3]
    return m, nodes, ps


def public(d):
    e = {k: v for k, v in d.items() if k not in ("lo", "hi", "short")}
    op = d["op"]
    e["a"] = [j + 1 for j in d["a"]]
    if op == "disc":
        e["n"] = [q(d["n"][0]), d["n"][1]]
    else:
        e["n"] = [q(x) for x in d["n"]]
    for k in ("xs", "ys", "fill"):
        e[k] = [q(x) for x in d[k]]
    e["yy"] = [[q(x) for x in r] for r in d["yy"]]
    return e


def play(case):
    mem = members_(case)
    width = len(mem)
    m, nodes, ps = build(case, width)
    flows = [nodes["a"], nodes["b"], nodes["a2"]]
    o0 = datetime.date.fromisoformat(case["start"]).toordinal()
    tabs, defs = [], []
    for i, d in enumerate(case["runs"][0]["ds"]):
        if d["op"] in ("tab", "xtab"):
            tabs.append([[q(x) for x in r] for r in data(case, i, d, width)])
            d["node"] = len(tabs)
    ev = []
    last = case["runs"][0]["ds"]
    order = {i: d["node"] for i, d in enumerate(last) if d["op"] in ("tab", "xtab")}
    for k, r in enumerate(case["runs"]):
        for i, x in order.items():
            r["ds"][i]["node"] = x
        if k:
            apply(m, ps, last, r["ds"])
            last = r["ds"]
            ev.append({"k": "set", "ds": [public(d) for d in last]})
        prepare(m, case.get("always"))
        if r["restart"]:
            m.reset(start=m.timestepper.datetime_index[r["restart"]].start_time)
        else:
            m.reset()
        prev = [[0] * 3 for _ in range(width)]
        for i in range(r["restart"] or 0, case["n"]):
            e = {"k": "step", "run": k + 1, "i": i, "o": o0 + i * case["step"], "first": i == (r["restart"] or 0), "prev": prev, "vol": [q(x) for x in nodes["st"].volume]}
            try:
                m.step()
            except (ValueError, IndexError) as err:
                e.update(k="stop", v=[[q(x) for x in p.get_all_values()] for p in ps], err=str(err)[:60])
                ev.append(e)
                break
            e["v"] = [[q(x) for x in p.get_all_values()] for p in ps]
            e["ix"] = [list(map(int, p.get_all_indices())) if isinstance(p, IndexParameter) else [] for p in ps]
            ev.append(e)
            prev = [[q(f.flow[s]) for f in flows] for s in range(width)]
        m.finish()
    return {"ev": ev, "ds": [public(d) for d in case["runs"][0]["ds"]], "tab": tabs, "cap": q(CAP), "members": [[i + 1 for i in x] for x in mem]}


def run(chk):
    chk.model_check("MCCombine", None if chk.quick else "MCCombineFull")
    rng = chk.rng
    cases = [dict(gen(rng), always=rng.random() < .4) for _ in range(chk.n(500, 10000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceCombine", cases, traces, what="parameters", chunks=6)
    ops = {}
    for c in cases:
        for d in c["runs"][0]["ds"]:
            ops[d["op"] + (":" + d["fn"] if d["fn"] else "")] = ops.get(d["op"] + (":" + d["fn"] if d["fn"] else ""), 0) + 1
    chk.extra["operations"] = dict(sorted(ops.items()))
    chk.extra["stopped"] = sum(1 for t in traces for e in t.get("ev", []) if e["k"] == "stop")
    for c in cases[:3]:
        chk.sample({"parameters": [d["op"] for d in c["runs"][0]["ds"]], "sizes": c["sizes"], "json": c["json"], "runs": len(c["runs"])})
