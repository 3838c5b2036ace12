"""Random documents for C25 (also used by C26 and C27): what each type takes, in a neutral form that is written as JSON in many ways and
built by code in one way."""
import copy, datetime, random
import numpy as np
import pandas as pd
from pywr.core import Model, Scenario
from pywr.nodes import NodeMeta
from pywr.parameters._parameters import parameter_registry
from pywr.recorders import recorder_registry

YEAR = 365


def P_(n):
    return {"$": "p", "n": n}


def N_(n):
    return {"$": "n", "n": n}


def R_(n):
    return {"$": "r", "n": n}


class Gen:
    def __init__(self, rng, steps=8):
        self.rng = rng
        self.T = steps
        self.comps, self.nodes, self.edges, self.virtual = [], [], [], []
        self.scens = []
        self.tables = 0
        self.uses = {}
        self.depth = 0

    # -------------------------------------------------------------------- values
    def u(self, a, b, d=2):
        return round(self.rng.uniform(a, b), d)

    def vec(self, n, a, b, d=2):
        return [self.u(a, b, d) for _ in range(n)]

    def arr(self, v, flat=False, url=True):
        """numbers given as a list, or in a table of the document, or in a file"""
        via = self.rng.choice(["list", "list", "table", "url"]) if isinstance(v, list) and v and not isinstance(v[0], list) else "list"
        if via == "url" and not url:
            via = "table"
        self.tables += 1
        return {"$": "v", "v": v, "via": via, "flat": flat, "t": "t%d" % self.tables,
                "fmt": self.rng.choice(["csv", "csv", "dict"]) if via == "table" else "csv"}

    def mat(self, rows, flat=False):
        self.tables += 1
        return {"$": "m", "v": rows, "via": self.rng.choice(["list", "table", "url"]), "flat": flat, "t": "t%d" % self.tables}

    def frame(self, n, ncol, a, b):
        self.tables += 1
        return {"$": "df", "cols": [self.vec(n, a, b) for _ in range(ncol)], "via": self.rng.choice(["url", "table"]), "t": "t%d" % self.tables,
                "col": ncol == 1}

    def pick(self, opts, always=()):
        """a random choice of the options"""
        return {k: v() for k, v in opts.items() if k in always or self.rng.random() < .45}

    def names(self, test):
        return [c["name"] for c in self.comps if test(c)]

    def param(self, safe=False, index=False, obj=True, lit=(0, 3)):
        """a parameter as an option: a number, a reference or a definition on the spot"""
        r = self.rng.random()
        if not obj and not index and r < .4:
            x = self.u(*lit)
            if self.rng.random() < .15:
                return {"$": "f", "v": x, "t": self.newtable()}
            return x
        c = self.names(lambda c: c["kind"] == "parameter" and (not safe or c["safe"]) and (not index or c["index"]))
        if c and (r < .85 or self.depth > 1):
            n = self.rng.choice(c)
            self.uses[n] = self.uses.get(n, 0) + 1
            return P_(n)
        self.depth += 1
        d = self.parameter(None, safe=safe, index=index)
        self.depth -= 1
        return {"$": "q", "d": d}

    def newtable(self):
        self.tables += 1
        return "t%d" % self.tables

    def params(self, n=None, **kw):
        return [self.param(**kw) for _ in range(n or self.rng.choice([1, 2, 2, 3]))]

    def distinct(self, n=None, **kw):
        out = []
        for x in self.params(n, **kw):
            if not (isinstance(x, dict) and x["$"] == "p" and x in out):
                out.append(x)
        return out

    def node(self, kinds):
        return N_(self.rng.choice([n["name"] for n in self.nodes if n["role"] in kinds]))

    def recorder(self):
        c = self.names(lambda c: c["kind"] == "recorder" and c["single"] and c["type"].startswith("numpyarray"))
        return R_(self.rng.choice(c)) if c else None

    # -------------------------------------------------------------------- parameters
    def parameter(self, name, safe=False, index=False, typ=None):
        u, rng = self.u, self.rng
        core = ("in", "out", "link")
        sto = any(n["role"] == "sto" for n in self.nodes)
        if typ is None:
            typ = rng.choice(self.ptypes(safe, index))
        o, common = {}, {"comment": lambda: "about %d" % rng.randrange(9)}
        bounds = {"is_variable": lambda: True, "lower_bounds": lambda: u(0, .5), "upper_bounds": lambda: u(5, 9)}
        A = ()
        sc = rng.choice(self.scens) if self.scens else None
        S = sc["size"] if sc else 0
        scen = lambda: {"$": "s", "n": sc["name"]}
        pos = (0.1, 5)
        pred = lambda: rng.choice(["LT", "gt", "EQ", "le", ">=", "<", ">"])
        thr = dict(values=lambda: [u(0, 4), u(0, 4)], predicate=pred, ratchet=lambda: True)
        cc = lambda n: sorted((u(.1, .9) for _ in range(n)), reverse=True)
        if typ == "constant":
            o = dict(bounds, scale=lambda: u(.5, 2), offset=lambda: u(0, 1))
            if rng.random() < .7:
                A, o["value"] = ("value",), lambda: u(*pos)
            else:
                A, o["#"] = ("#",), lambda: {"$": "scalar", "v": u(*pos), "t": self.newtable(), "via": rng.choice(["list", "table"])}
        elif typ == "arrayindexed":
            A, o = ("values",), {"values": lambda: self.arr(self.vec(self.T, *pos), flat=True)}
        elif typ == "dataframe":
            n = S if sc and rng.random() < .5 else 1
            A, o = ("#df",), {"#df": lambda: self.frame(self.T, n, *pos)}
            if n > 1 or (sc and n == S and sc["size"] == 1):
                o["scenario"] = scen
                A += ("scenario",)
        elif typ == "arrayindexedscenario":
            A, o = ("scenario", "values"), {"scenario": scen, "values": lambda: self.mat([self.vec(S, *pos) for _ in range(self.T)], True)}
        elif typ in ("constantscenario", "constantscenarioindex"):
            A, o = ("scenario", "values"), {"scenario": scen,
                                            "values": lambda: self.arr(self.vec(S, *pos) if typ == "constantscenario" else [float(rng.randrange(2)) for _ in range(S)], flat=True)}
        elif typ == "arrayindexedscenariomonthlyfactors":
            A, o = ("scenario", "values", "factors"), {"scenario": scen, "values": lambda: self.arr(self.vec(self.T, *pos), url=True),
                                                       "factors": lambda: self.mat([self.vec(12, .5, 1.5) for _ in range(S)])}
        elif typ == "dailyprofile":
            A, o = ("values",), {"values": lambda: self.arr(self.vec(366, *pos, 1), flat=True)}
        elif typ == "weeklyprofile":
            A, o = ("values",), {"values": lambda: self.arr(self.vec(rng.choice([52, 53]), *pos, 1), flat=True)}
        elif typ == "monthlyprofile":
            url = rng.random() < .5
            A, o = ("values",), {"values": lambda: self.arr(self.vec(12, *pos), flat=True, url=url)}
            if not url:
                o.update(bounds, interp_day=lambda: rng.choice(["first", "last"]))
        elif typ in ("scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile"):
            n = {"m": 12, "d": 366, "w": 52}[typ[8]]
            A, o = ("scenario", "values"), {"scenario": scen, "values": lambda: self.mat([self.vec(n, *pos, 1) for _ in range(S)], True)}
        elif typ == "uniformdrawdownprofile":
            o = {"reset_day": lambda: rng.randrange(1, 28), "reset_month": lambda: rng.randrange(1, 13), "residual_days": lambda: rng.randrange(0, 9)}
        elif typ == "rbfprofile":
            A = ("days_of_year", "values")
            o = dict(days_of_year=lambda: [1, 90, 180, 270], values=lambda: self.vec(4, 1, 3), min_value=lambda: u(.1, 1), max_value=lambda: u(2, 3),
                     rbf_kwargs=lambda: {"function": rng.choice(["linear", "cubic"])}, variable_days_of_year_range=lambda: rng.randrange(0, 9), **bounds)
        elif typ == "indexedarray":
            A, o = ("index_parameter", "params"), {"index_parameter": lambda: self.param(index=True), "params": lambda: self.distinct(6, safe=safe, obj=False)}
            o["params"] = lambda: [self.u(*pos) for _ in range(6)] + self.distinct(safe=safe)
        elif typ == "annualharmonicseries":
            A = ("mean", "amplitudes", "phases")
            o = dict(mean=lambda: u(2, 3), amplitudes=lambda: self.vec(2, 0, .9), phases=lambda: self.vec(2, 0, 3), is_variable=lambda: True,
                     mean_lower_bounds=lambda: u(0, 1), mean_upper_bounds=lambda: u(3, 5), amplitude_lower_bounds=lambda: 0.0,
                     amplitude_upper_bounds=lambda: u(1, 2), phase_lower_bounds=lambda: u(0, 1), phase_upper_bounds=lambda: u(3, 5))
        elif typ == "aggregated":
            A, o = ("parameters", "agg_func"), {"parameters": lambda: self.distinct(safe=safe, obj=False) or [1.0],
                                                "agg_func": lambda: rng.choice(["sum", "min", "max", "mean", "median"] + ([] if safe else ["product"]))}
        elif typ == "aggregatedindex":
            A, o = ("parameters", "agg_func"), {"parameters": lambda: self.distinct(index=True), "agg_func": lambda: rng.choice(["sum", "min", "max", "any", "all"])}
        elif typ == "division":
            A, o = ("numerator", "denominator"), {"numerator": lambda: self.param(safe=safe), "denominator": lambda: {"$": "q", "d": self.parameter(None, typ="constant")}}
        elif typ == "negative":
            A, o = ("parameter",), {"parameter": self.param}
        elif typ in ("max", "min", "negativemax", "negativemin"):
            A, o = ("parameter",), {"parameter": lambda: self.param(safe=safe), "threshold": lambda: u(0.5, 3)}
        elif typ == "offset":
            A, o = ("parameter",), {"parameter": lambda: self.param(safe=safe), "offset": lambda: u(0, 2), **bounds}
        elif typ == "deficit":
            A, o = ("node",), {"node": lambda: self.node(("out",))}
        elif typ == "flow":
            A, o = ("node",), {"node": lambda: self.node(core), "initial_value": lambda: u(*pos)}
        elif typ == "storage":
            A, o = ("storage_node",), {"storage_node": lambda: self.node(("sto",)), "use_proportional_volume": lambda: True}
        elif typ == "piecewiseintegral":
            A, o = ("parameter", "x", "y"), {"parameter": lambda: self.param(safe=True), "x": lambda: [1.0, 2.5, 400.0], "y": lambda: self.vec(3, 0, 2)}
        elif typ in ("flowdelay", "rollingmeanflownode"):
            k = rng.choice(["timesteps", "days"])
            A, o = ("node", k), {"node": lambda: self.node(core), k: lambda: (self.step if k == "days" else 1) * rng.randrange(1, 4), "initial_flow": lambda: u(*pos)}
        elif typ == "discountfactor":
            A, o = ("rate", "base_year"), {"rate": lambda: u(0.01, .1), "base_year": lambda: rng.randrange(1990, 2015)}
        elif typ == "scaledprofile":
            A, o = ("scale", "profile"), {"scale": lambda: u(.5, 2), "profile": lambda: self.param(safe=safe)}
        elif typ == "interpolated":
            kind = rng.choice(["linear", "nearest"])
            A, o = ("parameter", "x", "y"), {"parameter": self.param, "x": lambda: [-1e9, 0.0, 5.0, 1e9], "y": lambda: self.vec(4, *pos),
                                             "interp_kwargs": lambda: {"kind": kind}}
        elif typ == "interpolatedvolume":
            A, o = ("node", "volumes", "values"), {"node": lambda: self.node(("sto",)), "volumes": lambda: self.arr([-1.0, 20.0, 1000.0]), "values": lambda: self.arr(self.vec(3, *pos)),
                                                   "interp_kwargs": lambda: {"kind": rng.choice(["linear", "nearest"])}}
        elif typ == "interpolatedflow":
            A, o = ("node", "flows", "values"), {"node": lambda: self.node(core), "flows": lambda: [-1.0, 2.0, 1000.0], "values": lambda: self.vec(3, *pos),
                                                 "interp_kwargs": lambda: {"kind": "nearest"}}
        elif typ == "interpolatedquadrature":
            A, o = ("upper_parameter", "x", "y"), {"upper_parameter": lambda: self.param(safe=True), "lower_parameter": lambda: {"$": "q", "d": self.parameter(None, typ="constant")},
                                                   "x": lambda: [-1e9, 1.0, 1e9], "y": lambda: self.vec(3, .1, 2), "interp_kwargs": lambda: {"kind": "linear"}}
        elif typ == "scenariowrapper":
            A, o = ("scenario", "parameters"), {"scenario": scen, "parameters": lambda: [{"$": "q", "d": self.parameter(None, typ="constant")} for _ in range(S)]}
        elif typ in ("binarystep", "rectifier", "logistic"):
            o = {"value": lambda: u(-1, 1), "lower_bounds": lambda: u(-5, -2), "upper_bounds": lambda: u(2, 5), "is_variable": lambda: True}
            o.update({"binarystep": {"output": lambda: u(1, 3)}, "rectifier": {"min_output": lambda: u(0, 1), "max_output": lambda: u(2, 3)},
                      "logistic": {"max_output": lambda: u(1, 3), "growth_rate": lambda: u(.5, 2)}}[typ])
        elif typ in ("controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "controlcurveindex"):
            n = rng.choice([1, 1, 2])
            curves = cc(n)
            A, o = ("storage_node",), {"storage_node": lambda: self.node(("sto",))}
            if n == 1 and typ != "controlcurveindex" and rng.random() < .6:
                o["control_curve"] = lambda: rng.choice([curves[0], {"$": "q", "d": self.parameter(None, typ="constant")}])
                A += ("control_curve",)
            else:
                o["control_curves"] = lambda: list(curves)
                A += ("control_curves",)
            if typ == "controlcurve":
                k = rng.choice(["values", "parameters"])
                A += (k,)
                o[k] = (lambda: self.vec(n + 1, *pos)) if k == "values" else (lambda: [{"$": "q", "d": self.parameter(None, typ="constant")} for _ in range(n + 1)])
                if k == "values":
                    o.update(is_variable=lambda: True, lower_bounds=lambda: [0.0], upper_bounds=lambda: [9.0], variable_indices=lambda: [0])
                    o = {x: y for x, y in o.items() if x not in ("is_variable", "lower_bounds", "upper_bounds", "variable_indices")} if rng.random() < .7 else o
                    if "is_variable" in o:
                        A += ("is_variable", "lower_bounds", "upper_bounds", "variable_indices")
            elif typ == "controlcurveinterpolated":
                k = rng.choice(["values", "parameters"])
                A += (k,)
                o[k] = (lambda: self.arr(self.vec(n + 2, *pos), flat=True)) if k == "values" else (lambda: [{"$": "q", "d": self.parameter(None, typ="constant")} for _ in range(n + 2)])
            elif typ == "controlcurvepiecewiseinterpolated":
                A += ("values",)
                o.update(values=lambda: [self.vec(2, *pos) for _ in range(n + 1)], minimum=lambda: u(0, .1), maximum=lambda: u(.95, 1))
        elif typ == "weightedaverageprofile":
            A, o = ("storages", "profiles"), {"storages": lambda: [self.node(("sto",))], "profiles": lambda: [{"$": "q", "d": self.parameter(None, typ=rng.choice(["constant", "dailyprofile"]))}]}
        elif typ == "hydropowertarget":
            A = ("target",)
            o = dict(target=lambda: self.param(safe=True), water_elevation_parameter=lambda: {"$": "q", "d": self.parameter(None, typ="constant")},
                     max_flow=lambda: self.param(safe=True), min_flow=lambda: {"$": "q", "d": self.parameter(None, typ="constant")}, turbine_elevation=lambda: u(-9, 0),
                     efficiency=lambda: u(.5, 1), density=lambda: u(900, 1000), min_head=lambda: u(0, .1), flow_unit_conversion=lambda: u(1, 2),
                     energy_unit_conversion=lambda: 1e-5)
            A += ("water_elevation_parameter",)
        elif typ == "storagethreshold":
            A, o = ("storage_node", "threshold"), dict(storage_node=lambda: self.node(("sto",)), threshold=lambda: self.param(obj=False, lit=(5, 50)), **thr)
        elif typ == "nodethreshold":
            A, o = ("node", "threshold"), dict(node=lambda: self.node(core), threshold=lambda: self.param(obj=False), **thr)
        elif typ == "multiplethresholdindex":
            A, o = ("node", "thresholds"), dict(node=lambda: self.node(core), thresholds=lambda: self.distinct(obj=False))
        elif typ == "multiplethresholdparameterindex":
            A, o = ("parameter", "thresholds"), dict(parameter=self.param, thresholds=lambda: self.vec(2, 0, 3))
        elif typ == "parameterthreshold":
            A, o = ("parameter", "threshold"), dict(parameter=self.param, threshold=lambda: rng.choice([u(0, 3), {"$": "q", "d": self.parameter(None, typ="constant")}]), **thr)
        elif typ == "recorderthreshold":
            A, o = ("recorder", "threshold"), dict(recorder=self.recorder, threshold=lambda: self.param(obj=False), initial_value=lambda: 0, **thr)
        elif typ in ("currentyearthreshold", "currentordinaldaythreshold"):
            A, o = ("threshold",), dict(threshold=lambda: u(2000, 2020, 0) if "year" in typ else float(datetime.date(rng.choice([2005, 2012]), 6, 1).toordinal()), **thr)
        elif typ == "polynomial1d":
            k = rng.choice(["node", "parameter"] + (["storage_node"] if sto else []))
            A = ("coefficients", k)
            o = {"coefficients": lambda: self.vec(3, 0, .05), "node": lambda: self.node(core), "parameter": self.param, "storage_node": lambda: self.node(("sto",)),
                 "use_proportional_volume": lambda: True, "offset": lambda: u(0, 1), "scale": lambda: u(.1, .9)}
            o = {x: y for x, y in o.items() if x not in {"node", "parameter", "storage_node"} - {k}}
        elif typ == "polynomial2dstorage":
            A = ("coefficients", "storage_node", "parameter")
            o = {"coefficients": lambda: [self.vec(2, 0, .05) for _ in range(2)], "storage_node": lambda: self.node(("sto",)), "parameter": lambda: self.param(safe=True),
                 "use_proportional_volume": lambda: True, "storage_offset": lambda: u(0, 1), "storage_scale": lambda: u(.1, .9), "parameter_offset": lambda: u(0, 1),
                 "parameter_scale": lambda: u(.1, .9)}
        elif typ in ("storagelicense", "annuallicense", "annualexponentiallicense", "annualhyperbolalicense"):
            A, o = ("node", "amount"), {"node": lambda: self.node(core), "amount": lambda: u(50, 500)}
            if "exp" in typ:
                o.update(max_value=lambda: u(1, 5), k=lambda: u(.5, 2))
                A += ("max_value",)
            if "hyp" in typ:
                o.update(value=lambda: u(1, 5))
                A += ("value",)
        else:
            raise KeyError(typ)
        o.update(common)
        if True:
            o["tags"] = lambda: {"t": rng.randrange(9)}
        d = {"name": name, "kind": "parameter", "type": typ, "opts": self.pick(o, A), "safe": typ in SAFE, "index": typ in INDEX, "single": False}
        return d

    def ptypes(self, safe, index):
        sto = any(n["role"] == "sto" for n in self.nodes)
        nds = any(n["role"] in ("in", "out", "link") for n in self.nodes)
        ok = lambda t: (sto or t not in STO) and (nds or t not in NODED) and (self.scens or t not in SCEN) and (t != "recorderthreshold" or self.recorder()) \
            and (self.names(lambda c: c["index"]) or t not in ("aggregatedindex", "indexedarray")) and (t != "deficit" or any(n["role"] == "out" for n in self.nodes)) \
            and (self.depth < 1 or t not in DEEP) and (self.daily or t not in DAILY)
        if index:
            return [t for t in INDEX if ok(t)]
        if safe:
            return [t for t in SAFE if ok(t)]
        return [t for t in SAFE + OTHER + INDEX if ok(t)]

    # -------------------------------------------------------------------- recorders
    def rec(self, name, typ=None):
        rng, u = self.rng, self.u
        core = ("in", "out", "link")
        sto = any(n["role"] == "sto" for n in self.nodes)
        pp = lambda **kw: rng.choice(self.names(lambda c: c["kind"] == "parameter" and (not kw.get("index") or c["index"])) or [None])
        haveidx = bool(self.names(lambda c: c["index"]))
        singles = self.names(lambda c: c["kind"] == "recorder" and c["single"])
        events = self.names(lambda c: c["type"] == "event")
        ptest = lambda t: (sto or t not in RSTO) and (haveidx or t not in RIDX) and (singles or t != "aggregated") and (events or t not in ("eventduration", "eventstatistic"))
        if typ is None:
            typ = rng.choice([t for t in RTYPES if ptest(t)])
        agg = lambda: rng.choice(["mean", "sum", "max", "min", "median"])
        common = {"agg_func": agg, "ignore_nan": lambda: True, "is_objective": lambda: rng.choice(["minimise", "maximise"]), "epsilon": lambda: u(.1, 2),
                  "constraint_lower_bounds": lambda: u(-5, 0), "constraint_upper_bounds": lambda: u(10, 20), "comment": lambda: "rec %d" % rng.randrange(9),
                  "tags": lambda: {"x": rng.randrange(9)}}
        P = lambda index=False: self.param(index=index)
        A = ("node",)
        tagg = {"temporal_agg_func": agg}
        months = lambda: sorted(set(rng.sample(range(1, 13), rng.randrange(6, 12))) | {self.start.month})
        if typ == "aggregated":
            A, o = ("recorders",), {"recorders": lambda: [R_(x) for x in rng.sample(singles, min(len(singles), rng.choice([1, 2])))], "recorder_agg_func": agg}
        elif typ in ("numpyarraynode", "numpyarraynodedeficit", "numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio", "numpyarraynodecost"):
            o = dict(node=lambda: self.node(("out",)), **tagg)
            if typ == "numpyarraynode":
                o = dict(node=lambda: self.node(core + ("cmp",)), factor=lambda: u(.5, 2), **tagg)
        elif typ in ("flowdurationcurve", "seasonalflowdurationcurve", "flowdurationcurvedeviation"):
            A += ("percentiles",)
            o = dict(node=lambda: self.node(core), percentiles=lambda: [10.0, 50.0, 90.0], fdc_agg_func=agg)
            if typ.startswith("seas"):
                o["months"] = months
                A += ("months",)
            if typ.endswith("deviation"):
                o["lower_target_fdc"], o["upper_target_fdc"] = (lambda: self.vec(3, .5, 1)), (lambda: self.vec(3, 1, 2))
                A += ("lower_target_fdc", "upper_target_fdc")
        elif typ == "numpyarraystorage":
            o = dict(node=lambda: self.node(("sto",)), proportional=lambda: True, **tagg)
        elif typ == "numpyarraynormalisedstorage":
            o = dict(node=lambda: self.node(("sto",)), parameter=lambda: {"$": "q", "d": self.parameter(None, typ="dailyprofile")}, **tagg)
            o["parameter"] = lambda: {"$": "q", "d": {"name": None, "kind": "parameter", "type": "constant", "opts": {"value": u(.3, .8)}, "safe": True, "index": False, "single": False}}
            A += ("parameter",)
        elif typ == "storagedurationcurve":
            A += ("percentiles",)
            o = dict(node=lambda: self.node(("sto",)), percentiles=lambda: [25.0, 75.0], sdc_agg_func=agg, proportional=lambda: True)
        elif typ in ("numpyarraylevel", "numpyarrayarea"):
            o = dict(node=lambda: self.node(("sto",)), **tagg)
        elif typ in ("numpyarrayparameter", "numpyarraydailyprofileparameter"):
            A, o = ("parameter",), dict(parameter=P, **tagg)
            if "daily" in typ:
                o.pop("temporal_agg_func")
        elif typ == "numpyarrayindexparameter":
            A, o = ("parameter",), dict(parameter=lambda: P(True), **tagg)
        elif typ == "rollingwindowparameter":
            A, o = ("parameter", "window"), dict(parameter=P, window=lambda: rng.randrange(1, 5), temporal_agg_func=lambda: rng.choice(["mean", "sum", "max", "min"]))
        elif typ == "rollingmeanflownode":
            A, o = ("node", "timesteps"), dict(node=lambda: self.node(core), timesteps=lambda: rng.randrange(1, 5))
        elif typ in ("totaldeficitnode", "deficitfrequencynode"):
            o = dict(node=lambda: self.node(("out",)))
        elif typ in ("totalflownode", "meanflownode"):
            o = dict(node=lambda: self.node(core), factor=lambda: u(.5, 2))
        elif typ == "minimumvolumestorage":
            o = dict(node=lambda: self.node(("sto",)))
        elif typ == "minimumthresholdvolumestorage":
            A += ("threshold",)
            o = dict(node=lambda: self.node(("sto",)), threshold=lambda: u(10, 60))
        elif typ == "timestepcountindexparameter":
            A, o = ("parameter", "threshold"), dict(parameter=lambda: P(True), threshold=lambda: rng.randrange(0, 3))
        elif typ == "annualcountindexthreshold":
            A, o = ("parameters", "threshold"), dict(parameters=lambda: [x for x in self.distinct(index=True)], threshold=lambda: rng.randrange(0, 3), **tagg)
            k = rng.choice([0, 1, 2])
            if k == 1:
                o["exclude_months"] = lambda: [1, 6]
            elif k == 2:
                A += ("include_from_month", "include_from_day", "include_to_month", "include_to_day")
                o.update(include_from_month=lambda: rng.randrange(1, 4), include_from_day=lambda: rng.randrange(1, 28), include_to_month=lambda: rng.randrange(6, 12),
                         include_to_day=lambda: rng.randrange(1, 28))
        elif typ == "annualcountindexparameter":
            A, o = ("parameter", "threshold"), dict(parameter=lambda: P(True), threshold=lambda: rng.randrange(0, 3))
        elif typ == "annualtotalflow":
            k = rng.choice([1, 2])
            A, o = ("nodes",), dict(nodes=lambda: [self.node(core) for _ in range(k)], factors=lambda: self.vec(k, .5, 2), **tagg)
        elif typ == "totalparameter":
            A, o = ("parameter",), dict(parameter=P, factor=lambda: u(.5, 2), integrate=lambda: True)
        elif typ == "meanparameter":
            A, o = ("parameter",), dict(parameter=P, factor=lambda: u(.5, 2))
        elif typ == "event":
            A, o = ("threshold",), dict(threshold=lambda: P(True), minimum_event_length=lambda: rng.randrange(1, 4), tracked_parameter=P, event_agg_func=agg)
            if rng.random() < .3:      # (an event recorder may follow a recorder)
                c = self.names(lambda c: c["type"] == "totalflownode")
                if c:
                    pass
            A += ("tracked_parameter",)
        elif typ in ("eventduration", "eventstatistic"):
            A, o = ("event_recorder",), dict(event_recorder=lambda: R_(rng.choice(events)), recorder_agg_func=agg)
            if typ == "eventstatistic":
                o["event_agg_func"] = agg
        elif typ == "gaussiankdestorage":
            A += ("target_volume_pc",)
            o = dict(node=lambda: self.node(("sto",)), target_volume_pc=lambda: u(.2, .8), num_pdf=lambda: rng.choice([5, 11]), use_reflection=lambda: False)
        elif typ in ("hydropower", "totalhydroenergy"):
            o = dict(node=lambda: self.node(core), water_elevation_parameter=P, turbine_elevation=lambda: u(-9, 9), efficiency=lambda: u(.5, 1), density=lambda: u(900, 1000),
                     flow_unit_conversion=lambda: u(1, 2), energy_unit_conversion=lambda: 1e-4)
            if typ == "hydropower":
                o.update(tagg)
        elif typ == "csv":
            A, o = ("url",), dict(url=lambda: "out_%s.csv" % name, nodes=lambda: [N_(n["name"]) for n in self.nodes[:2]], scenario_index=lambda: 0,
                                  csv_kwargs=lambda: {"delimiter": ";"})
        elif typ == "tables":
            A, o = ("url",), dict(url=lambda: "out_%s.h5" % name, nodes=lambda: [N_(n["name"]) for n in self.nodes[:2]], mode=lambda: "w", title=lambda: "title",
                                  where=lambda: "/sub", create_directories=lambda: True, metadata=lambda: {"m": 1})
        else:
            raise KeyError(typ)
        o.update(common)
        return {"name": name, "kind": "recorder", "type": typ, "opts": self.pick(o, A), "safe": False, "index": False, "single": typ in SINGLE}

    # -------------------------------------------------------------------- nodes
    def net(self):
        """chains from a source to a sink, with virtual nodes over them"""
        rng, u = self.rng, self.u
        common = {"comment": lambda: "n%d" % rng.randrange(9), "tags": lambda: {"a": rng.randrange(9)}, "position": lambda: {"schematic": [u(0, 9), u(0, 9)]},
                  "color": lambda: rng.choice(["red", "#123456"]), "visible": lambda: False}
        sp = lambda a=1, b=8: self.param(safe=True, obj=False, lit=(a, b))
        n = [0]

        def add(typ, role, o, A=()):
            n[0] += 1
            d = {"name": "%s%d" % (typ[:3], n[0]), "kind": "node", "type": typ, "role": role, "opts": self.pick(dict(o, **common), A), "late": []}
            self.nodes.append(d)
            return d
        cost = {"cost": lambda: self.param(safe=True, obj=False, lit=(-5, 5))}
        lims = dict(cost, max_flow=sp)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["input", "input", "catchment"])
            if k == "input":
                a = add("input", "in", dict(lims, conversion_factor=lambda: rng.choice([1.0, 1.5])), ("max_flow",))
            else:
                a = add("catchment", "in", dict(cost, flow=sp), ("flow",))
            prev, slot = a["name"], None
            for _ in range(rng.randrange(1, 4)):
                t = rng.choice(["link", "link", "river", "storage", "storage", "reservoir", "reservoir", "rivergauge", "piecewiselink", "multisplitlink", "riversplit",
                                "riversplitwithgauge", "breaklink", "delaynode", "losslink"])
                if t in ("link", "river"):
                    d = add(t, "link", dict(cost))
                elif t in ("storage", "reservoir"):
                    mx = float(rng.randrange(40, 200))
                    o = dict(max_volume=lambda: mx, min_volume=lambda: u(0, 5), initial_volume=lambda: u(10, 30), initial_volume_pc=lambda: u(.2, .9),
                             level=lambda: self.param(safe=True, obj=False), area=lambda: self.param(safe=True, obj=False), cost=lambda: u(-5, 5))
                    A = ("max_volume", rng.choice(["initial_volume", "initial_volume_pc"]), "level", "area")
                    if rng.random() < .3:
                        o["max_volume"] = lambda: {"$": "q", "d": {"name": None, "kind": "parameter", "type": "constant", "opts": {"value": mx}, "safe": True, "index": False, "single": False}}
                        A = ("max_volume", "initial_volume", "initial_volume_pc", "level", "area")
                    elif rng.random() < .3:
                        o["initial_volume"] = lambda: {"$": "f", "v": u(10, 30), "t": self.newtable()}
                    if t == "reservoir":
                        o.update(above_curve_cost=lambda: u(-2, 0), control_curve=lambda: rng.choice([u(.2, .9), self.param(safe=True)]))
                    d = add(t, "sto", o, A)
                    if not ({"cost"} & set(d["opts"])):
                        d["opts"]["cost"] = u(-5, -1)
                elif t == "rivergauge":
                    d = add(t, "cmp", dict(mrf=sp, mrf_cost=lambda: u(-9, -1), cost=lambda: u(0, 2)))
                elif t == "piecewiselink":
                    d = add(t, "cmp", dict(nsteps=lambda: 2, costs=lambda: [u(-3, 0), sp(0, 2)], max_flows=lambda: [sp(), None]), ("nsteps",))
                elif t == "multisplitlink":
                    d = add(t, "split", dict(nsteps=lambda: 1, extra_slots=lambda: 1, slot_names=lambda: ["main", "extra"], factors=lambda: self.vec(2, 1, 3),
                                             costs=lambda: [u(-3, 0)], max_flows=lambda: [sp()]), ("nsteps", "slot_names"))
                elif t == "riversplit":
                    d = add(t, "split", dict(factors=lambda: self.vec(2, 1, 3), slot_names=lambda: ["main", "extra"], costs=lambda: [u(-3, 0)]), ("factors", "slot_names"))
                elif t == "riversplitwithgauge":
                    d = add(t, "split", dict(factors=lambda: self.vec(2, 1, 3), slot_names=lambda: ["main", "extra"], mrf=sp, cost=lambda: u(0, 2), mrf_cost=lambda: u(-9, -1)),
                            ("factors", "slot_names"))
                elif t == "breaklink":
                    d = add(t, "cmp", dict(max_flow=sp, cost=lambda: u(0, 2)))
                elif t == "delaynode":
                    k = rng.choice(["timesteps", "days"])
                    d = add(t, "cmp", {k: lambda: (self.step if k == "days" else 1) * rng.randrange(1, 3), "initial_flow": lambda: u(0, 3)}, (k,))
                elif t == "losslink":
                    d = add(t, "cmp", dict(loss_factor=lambda: u(.1, .5), loss_factor_type=lambda: rng.choice(["gross", "net"]), max_flow=sp, cost=lambda: u(0, 1)))
                if t == "delaynode" and not self.daily:
                    d["opts"].pop("days", None)
                    d["opts"]["timesteps"] = 1
                self.edges.append([prev, d["name"], slot, None])
                prev, slot = d["name"], None
                if d["role"] == "split":
                    slot = "main"
                    e = add("output", "out", lims)
                    self.edges.append([d["name"], e["name"], "extra", None])
            b = add("output", "out", dict(lims, cost=lambda: u(-20, -10)), ("max_flow", "cost"))
            self.edges.append([prev, b["name"], slot, None])
            # what arrives and cannot be used is spilled
            s = add("output", "spill", {"cost": lambda: 50.0}, ("cost",))
            self.edges.append([a["name"], s["name"], None, None])
            if slot is None and rng.random() < .8:
                self.edges.append([prev, s["name"], None, None])
            else:
                self.edges.append([prev, s["name"], slot, None])
        core = lambda: N_(rng.choice([x["name"] for x in self.nodes if x["role"] in ("in", "out", "link") and x["name"] != "spill"]))
        for _ in range(rng.choice([0, 1, 2])):
            t = rng.choice(["aggregatednode", "aggregatedstorage", "virtualstorage", "rollingvirtualstorage", "annualvirtualstorage", "seasonalvirtualstorage", "monthlyvirtualstorage"])
            stos = [x["name"] for x in self.nodes if x["role"] == "sto"]
            if t == "aggregatedstorage":
                if stos:
                    add(t, "aggsto", {"storage_nodes": lambda: [N_(x) for x in stos]}, ("storage_nodes",))
                continue
            ms = []
            for _ in range(rng.choice([1, 2])):
                c = core()
                if c not in ms:
                    ms.append(c)
            if t == "aggregatednode":
                add(t, "agg", {"nodes": lambda: ms, "max_flow": lambda: sp(5, 20), "flow_weights": lambda: self.vec(len(ms), 1, 2)}, ("nodes",))
                continue
            o = dict(nodes=lambda: ms, factors=lambda: self.vec(len(ms), .1, 2), min_volume=lambda: u(0, 2), max_volume=lambda: u(100, 900), initial_volume=lambda: u(50, 90),
                     initial_volume_pc=lambda: u(.2, .9))
            A = ("nodes", "max_volume", rng.choice(["initial_volume", "initial_volume_pc"]))
            rd = dict(reset_day=lambda: rng.randrange(1, 28), reset_month=lambda: rng.randrange(1, 13), reset_to_initial_volume=lambda: True)
            if t[0] == "r":
                k = rng.choice(["timesteps", "days"]) if self.daily else "timesteps"
                o[k] = lambda: (self.step if k == "days" else 1) * rng.randrange(2, 5)
                A += (k,)
            elif t[0] == "a":
                o.update(rd)
            elif t[0] == "s":
                o.update(rd, end_day=lambda: rng.randrange(1, 28), end_month=lambda: rng.randrange(1, 13))
            elif t[0] == "m":
                o.update(months=lambda: rng.randrange(1, 4), initial_months=lambda: rng.randrange(0, 3), reset_to_initial_volume=lambda: True)
            add(t, "vs", o, A)


SAFE = ["constant", "arrayindexed", "dataframe", "arrayindexedscenario", "constantscenario", "arrayindexedscenariomonthlyfactors", "dailyprofile", "weeklyprofile",
        "monthlyprofile", "scenariomonthlyprofile", "scenariodailyprofile", "scenarioweeklyprofile", "rbfprofile", "aggregated", "max", "offset", "flow", "scaledprofile",
        "interpolated", "interpolatedvolume", "interpolatedflow", "scenariowrapper", "controlcurve", "controlcurveinterpolated", "annualharmonicseries", "min"]
OTHER = ["uniformdrawdownprofile", "indexedarray", "division", "negative", "negativemax", "negativemin", "deficit", "storage", "piecewiseintegral", "flowdelay",
         "rollingmeanflownode", "discountfactor", "interpolatedquadrature", "binarystep", "rectifier", "logistic", "controlcurvepiecewiseinterpolated",
         "weightedaverageprofile", "hydropowertarget", "polynomial1d", "polynomial2dstorage", "storagelicense", "annuallicense", "annualexponentiallicense",
         "annualhyperbolalicense"]
INDEX = ["constantscenarioindex", "aggregatedindex", "controlcurveindex", "storagethreshold", "nodethreshold", "multiplethresholdindex",
         "multiplethresholdparameterindex", "parameterthreshold", "recorderthreshold", "currentyearthreshold", "currentordinaldaythreshold"]
STO = {"storage", "interpolatedvolume", "controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "controlcurveindex", "weightedaverageprofile",
       "storagethreshold", "polynomial2dstorage"}
SCEN = {"arrayindexedscenario", "constantscenario", "constantscenarioindex", "arrayindexedscenariomonthlyfactors", "scenariomonthlyprofile", "scenariodailyprofile",
        "scenarioweeklyprofile", "scenariowrapper"}
DEEP = {"indexedarray", "aggregated", "aggregatedindex", "hydropowertarget", "recorderthreshold", "scenariowrapper", "division"}
NODED = {"flow", "interpolatedflow", "flowdelay", "rollingmeanflownode", "deficit", "nodethreshold", "multiplethresholdindex", "polynomial1d", "storagelicense",
         "annuallicense", "annualexponentiallicense", "annualhyperbolalicense"}
DAILY = {"flowdelay", "rollingmeanflownode"}
FLATURL = {"arrayindexed", "constantscenario", "constantscenarioindex", "dailyprofile", "weeklyprofile", "monthlyprofile", "controlcurve", "controlcurveinterpolated"}
RTYPES = ["aggregated", "numpyarraynode", "numpyarraynodedeficit", "numpyarraynodesuppliedratio", "numpyarraynodecurtailmentratio", "numpyarraynodecost", "flowdurationcurve",
          "seasonalflowdurationcurve", "flowdurationcurvedeviation", "numpyarraystorage", "numpyarraynormalisedstorage", "storagedurationcurve", "numpyarraylevel",
          "numpyarrayarea", "numpyarrayparameter", "numpyarraydailyprofileparameter", "numpyarrayindexparameter", "rollingwindowparameter", "rollingmeanflownode",
          "totaldeficitnode", "deficitfrequencynode", "totalflownode", "meanflownode", "minimumvolumestorage", "minimumthresholdvolumestorage",
          "timestepcountindexparameter", "annualcountindexthreshold", "annualcountindexparameter", "annualtotalflow", "totalparameter", "meanparameter", "event",
          "eventduration", "eventstatistic", "gaussiankdestorage", "hydropower", "totalhydroenergy", "csv", "tables"]
RSTO = {"numpyarraystorage", "numpyarraynormalisedstorage", "storagedurationcurve", "numpyarraylevel", "numpyarrayarea", "minimumvolumestorage",
        "minimumthresholdvolumestorage", "gaussiankdestorage"}
RIDX = {"numpyarrayindexparameter", "timestepcountindexparameter", "annualcountindexthreshold", "annualcountindexparameter", "event"}
SINGLE = {"numpyarraynode", "totaldeficitnode", "totalflownode", "meanflownode", "minimumvolumestorage", "totalparameter", "meanparameter", "deficitfrequencynode",
          "numpyarraynodedeficit"}
# names of arguments which differ from those of the documents
KW = {"storagethreshold": {"storage_node": "storage"}, "parameterthreshold": {"parameter": "param"}, "csv": {"url": "csvfile"}, "tables": {"url": "h5file"},
      "annualcountindexparameter": {"parameter": "param"}, "control": {}}
for t in ("numpyarrayparameter", "numpyarraydailyprofileparameter", "numpyarrayindexparameter", "rollingwindowparameter", "totalparameter", "meanparameter"):
    KW[t] = {"parameter": "param"}


def classof(kind, typ):
    if kind == "parameter":
        return parameter_registry.get(typ + "parameter") or parameter_registry[typ]
    if kind == "recorder":
        return recorder_registry.get(typ + "recorder") or recorder_registry[typ]
    return NodeMeta.node_registry[typ]


def gen(rng, ncomp=None):
    g = Gen(rng)
    stepfmt = rng.choice(["int", "int", "str"])
    g.start = start = datetime.date(rng.choice([2015, 2016]), rng.randrange(1, 13), rng.randrange(1, 28))
    g.daily = stepfmt == "int"
    g.step = rng.choice([1, 1, 5, 6])       # weekly files are taken to end on their dates
    if rng.random() < .6:
        g.scens = [{"name": "sc%d" % i, "size": rng.choice([1, 2, 3, 4])} for i in range(rng.choice([1, 1, 2]))]
        for s in g.scens:
            if rng.random() < .3 and s["size"] > 1:
                s["slice"] = rng.choice([[0, s["size"] - rng.choice([0, 1])], [0, s["size"], 2], [1, s["size"], 1], [0, None, 1], [None, None, 2]])
            if rng.random() < .3:
                s["ensemble_names"] = ["e%d" % i for i in range(s["size"])]
    combos = None
    if g.scens and not any("slice" in s for s in g.scens) and rng.random() < .3:
        combos = [[rng.randrange(s["size"]) for s in g.scens] for _ in range(rng.choice([1, 2]))]
        combos = [c for i, c in enumerate(combos) if c not in combos[:i]]
    # parameters which do not need nodes come first, so that the nodes may use them
    for _ in range(rng.choice([1, 2, 3])):
        t = rng.choice([t for t in g.ptypes(True, False) if t not in STO and t not in NODED])
        g.comps.append(g.parameter("p%d" % len(g.comps), typ=t))
    g.net()
    for _ in range(ncomp or rng.randrange(3, 12)):
        nm = "%s%d"
        if rng.random() < .55:
            g.comps.append(g.parameter("p%d" % len(g.comps)))
        else:
            g.comps.append(g.rec("r%d" % len(g.comps)))
    return {"seed": rng.randrange(10 ** 9), "nodes": g.nodes, "comps": g.comps, "edges": g.edges, "scens": g.scens, "combos": combos, "step": g.step,
            "start": start.isoformat(), "end": (start + datetime.timedelta(days=g.T * g.step - 1)).isoformat(), "T": g.T,
            "solver": rng.choice(["glpk", "glpk", "glpk-edge", None]), "stepfmt": stepfmt}


# ------------------------------------------------------------------------------------------------ written as JSON
class Writer:
    """one of the many ways to write the same document"""
    def __init__(self, case, rng, folder, inline=True, mixed=True):
        self.mixed = mixed
        self.case, self.rng, self.folder = case, rng, folder
        self.tables = {}
        self.inline = {}
        if inline and not (case.get("flaw") or {}).get("kind") == "cycle":      # definitions used once may be written where they are used
            count = {}

            def walk(x):
                if isinstance(x, dict):
                    if x.get("$") in ("p", "r"):
                        count[x["n"]] = count.get(x["n"], 0) + 1
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            walk([d["opts"] for d in case["comps"] + case["nodes"]])
            inlistrec = set()
            for d in case["comps"]:
                if d["type"] == "aggregated" and d["kind"] == "recorder":
                    inlistrec |= {x["n"] for x in d["opts"]["recorders"]}
            for d in case["comps"]:
                if count.get(d["name"]) == 1 and rng.random() < .4 and (d["kind"] == "parameter" or d["name"] in inlistrec) and not d.get("top"):
                    self.inline[d["name"]] = d

    def shuffled(self, items):
        items = list(items)
        self.rng.shuffle(items)
        return items

    def table(self, v, t, fmt="csv", index=None, names=None):
        """a table of the document, or a file: the column asked for, between others"""
        cols = v if isinstance(v[0], list) else [v]
        names = names or ["wanted"] + ["w%d" % i for i in range(1, len(cols))]
        idx = index or ["i%d" % i for i in range(len(cols[0]))]
        df = pd.DataFrame(dict({"decoy": [9.25 + i for i in range(len(idx))]}, **dict(zip(names, cols))), index=idx)
        if fmt == "dict":
            self.tables[t] = {"data": {c: {str(k): float(x) for k, x in df[c].items()} for c in df}}
            return None
        fn = "%s.csv" % t
        df.to_csv("%s/%s" % (self.folder, fn), index_label="index")
        return fn

    def readcsv(self, fn, t, via, dates=False):
        d = {"url": fn, "index_col": 0}
        if dates:
            d["parse_dates"] = True
        if via == "url":
            return d
        self.tables[t] = d
        return {"table": t}

    def value(self, v):
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if not isinstance(v, dict) or "$" not in v:
            return v
        k = v["$"]
        if k in ("p", "r"):
            d = self.inline.get(v["n"])
            if d is None:
                return v["n"]
            return dict(self.definition(d), name=d["name"])
        if k == "q":
            return self.definition(v["d"], name=v["d"].get("name"))
        if k in ("n", "s"):
            return v["n"]
        if k == "f":
            fn = self.table([v["v"] + 1.0, v["v"]], v["t"])
            return dict(self.readcsv(fn, v["t"], "table"), column="wanted", index="i1")
        if k in ("v", "m"):
            if v["via"] == "list":
                return v["v"]
            return self.source(v)
        raise KeyError(k)

    def source(self, v):
        if v["$"] == "m":
            fn = "%s.csv" % v["t"]
            pd.DataFrame(v["v"]).to_csv("%s/%s" % (self.folder, fn), index_label="index")
            return self.readcsv(fn, v["t"], v["via"])
        fn = self.table(v["v"], v["t"], v["fmt"])
        d = {"table": v["t"]} if fn is None else self.readcsv(fn, v["t"], v["via"])
        return dict(d, column="wanted")

    def definition(self, d, name=None):
        out = {"type": d["type"] if self.rng.random() < .7 else self.typename(d)}
        if name:
            out["name"] = name
        for k, v in self.shuffled(d["opts"].items()):
            if k == "#":
                if v["via"] == "list":
                    out["values"] = v["v"]
                else:
                    out.update(self.value(dict(v, **{"$": "f"})))
            elif k == "#df":
                idx = [(datetime.date.fromisoformat(self.case["start"]) + datetime.timedelta(days=i * self.case["step"])).isoformat() for i in range(len(v["cols"][0]))]
                names = ["wanted"] if v["col"] else ["%d" % i for i in range(len(v["cols"]))]
                df = pd.DataFrame(dict(zip(names, v["cols"])), index=idx)
                fn = "%s.csv" % v["t"]
                df.to_csv("%s/%s" % (self.folder, fn), index_label="index")
                out.update(self.readcsv(fn, v["t"], v["via"], dates=True))
                if v["col"]:
                    out["column"] = "wanted"
            elif isinstance(v, dict) and v.get("$") in ("v", "m") and v["flat"] and v["via"] != "list":
                out.update(self.source(v))
            else:
                out[k] = self.value(v)
        return out

    def typename(self, d):
        c = classof(d["kind"], d["type"]).__name__ if not d.get("unknown") else d["type"]
        return self.rng.choice([c, c.lower(), c.upper()]) if d["kind"] != "node" else self.rng.choice([c, c.lower()])

    def document(self):
        c = self.case
        doc = {"metadata": {"title": "t%d" % c["seed"], "minimum_version": "1.0"},
               "timestepper": {"start": c["start"], "end": c["end"], "timestep": c["step"] if c["stepfmt"] == "int" else "%dD" % c["step"]}}
        if c["solver"]:
            doc["solver"] = {"name": c["solver"]}
        if c["scens"]:
            doc["scenarios"] = copy.deepcopy(c["scens"])
        if c["combos"]:
            doc["scenario_combinations"] = c["combos"]
        doc["nodes"] = [dict(self.definition(d), name=d["name"]) for d in (self.shuffled(c["nodes"]) if self.mixed else c["nodes"])]
        for key, kind in (("parameters", "parameter"), ("recorders", "recorder")):
            x = {d["name"]: self.definition(d) for d in self.shuffled(c["comps"]) if d["kind"] == kind and d["name"] not in self.inline}
            if x:
                doc[key] = x
        doc["edges"] = [e if e[2] is not None else e[:2] for e in (self.shuffled(c["edges"]) if self.mixed else c["edges"])]
        if self.tables:
            doc["tables"] = self.tables
        return doc


# ------------------------------------------------------------------------------------------------ built by code
class Builder:
    def __init__(self, case, folder):
        self.case, self.folder = case, folder
        c = case
        self.m = Model(start=c["start"], end=c["end"], timestep=c["step"] if c["stepfmt"] == "int" else "%dD" % c["step"], solver=c["solver"], path=folder + "/")
        self.m.metadata = {"title": "t%d" % c["seed"], "minimum_version": "1.0"}
        for s in c["scens"]:
            Scenario(self.m, s["name"], size=s["size"], slice=slice(*s["slice"]) if "slice" in s else None, ensemble_names=s.get("ensemble_names"))
        if c["combos"]:
            self.m.scenarios.user_combinations = c["combos"]
        self.defs = {d["name"]: d for d in c["comps"]}
        self.done = {}
        self.nodes = {}
        nd = {d["name"]: d for d in c["nodes"]}
        for d in c["nodes"]:
            self.node(d)
        for n in self.defs:
            self.comp(n)
        for a, b, sa, sb in c["edges"]:
            self.nodes[a].connect(self.nodes[b], from_slot=sa, to_slot=sb)

    def comp(self, n):
        if n not in self.done:
            self.done[n] = None
            self.done[n] = self.make(self.defs[n])
        return self.done[n]

    def value(self, v):
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if not isinstance(v, dict) or "$" not in v:
            return copy.deepcopy(v)
        k = v["$"]
        if k in ("p", "r"):
            return self.comp(v["n"])
        if k == "q":
            return self.make(v["d"])
        if k == "n":
            return self.nodes[v["n"]]
        if k == "s":
            return self.m.scenarios[v["n"]]
        if k in ("f", "scalar"):
            return v["v"]
        if k in ("v", "m"):
            return np.array(v["v"], dtype=np.float64)
        raise KeyError(k)

    def make(self, d):
        typ = d["type"]
        cls = classof(d["kind"], typ)
        kw = {}
        for k, v in d["opts"].items():
            if k == "#":
                kw["value"] = v["v"]
            elif k == "#df":
                idx = pd.date_range(self.case["start"], periods=len(v["cols"][0]), freq="%dD" % self.case["step"])
                df = pd.DataFrame({("wanted" if v["col"] else "%d" % i): x for i, x in enumerate(v["cols"])}, index=idx)
                kw["dataframe"] = df["wanted"] if v["col"] else df
            elif k == "control_curve" and d["kind"] == "parameter":
                kw["control_curves"] = [self.value(v)]
            else:
                x = self.value(v)
                k2 = KW.get(typ, {}).get(k, k)
                if k2 in ("values", "x", "y", "flows", "volumes", "factors") and isinstance(x, list) and d["kind"] == "parameter" and all(isinstance(z, (int, float, list)) for z in x) and typ != "rbfprofile" \
                        and not (k2 == "values" and typ in INDEX and typ != "constantscenarioindex"):
                    x = np.array(x, dtype=np.float64)
                if k2 in ("csvfile", "h5file"):
                    x = self.folder + "/" + x
                kw[k2] = x
        tags = kw.pop("tags", None) if d["kind"] == "parameter" else None
        if typ == "aggregated" and d["kind"] == "parameter":
            kw["parameters"] = [parameter_registry["constantparameter"](self.m, x) if isinstance(x, float) else x for x in kw["parameters"]]
        obj = cls(self.m, name=d["name"], **kw) if d["name"] is not None else cls(self.m, **kw)
        if tags is not None:
            obj.tags = tags
        return obj

    def node(self, d):
        kw = {k: self.value(v) for k, v in d["opts"].items()}
        later = {k: kw.pop(k) for k in ("max_flow", "min_flow", "factors") if k in kw} if d["type"] == "aggregatednode" else {}
        self.nodes[d["name"]] = obj = classof("node", d["type"])(self.m, name=d["name"], **kw)
        for k, v in later.items():
            setattr(obj, k, v)
