"""Probe components: subclasses of pywr's classes that log the phases they are driven through."""
import datetime, random
from common import SOLVERS
from pywr.core import Model, Input, Link, Output, Storage, AggregatedNode, VirtualStorage, Catchment
from pywr.nodes import LossLink
from pywr.parameters import Parameter, IndexParameter, ConstantParameter
from pywr.recorders import Recorder, NumpyArrayNodeRecorder


def day(n, start="2015-01-01"):
    d = datetime.date.fromisoformat(start) + datetime.timedelta(days=n - 1)
    return d.isoformat()


class Injected(Exception):
    pass


class Log:
    def __init__(self):
        self.ev, self.next, self.fail, self.failed_now = [], 0, None, False
        self.index = {}

    def new(self):
        self.next += 1
        return self.next

    def add(self, k, **kw):
        self.ev.append(dict(kw, k=k))

    def hook(self, k, pid, ts=None):
        """log a phase of a component, or raise there if a failure is scheduled"""
        f = self.fail
        if f and not self.failed_now and f[0] == k and f[1] + 1 == pid and ts == f[2]:
            self.failed_now = True
            self.add("fail", x=pid)
            raise Injected(k)
        d = {"x": pid}
        if ts is not None:
            d["ts"] = ts
        self.add(k, **d)


class SolverProxy:
    def __init__(self, inner, log):
        self.__dict__["inner"], self.__dict__["log"] = inner, log

    def solve(self, model):
        log = self.log
        f = log.fail
        if f and f[0] == "solver" and not log.failed_now and model.timestep.index == f[2]:
            log.failed_now = True
            log.add("fail", x=0)
            raise Injected("solver")
        try:
            r = self.inner.solve(model)
        except Exception:
            log.failed_now = True
            log.add("fail", x=0)
            raise
        log.add("solve")
        return r

    def __getattr__(self, k):
        return getattr(self.inner, k)

    def __setattr__(self, k, v):
        setattr(self.inner, k, v)


class NodeProbes:
    def __init__(self, log):
        self.log, self.cls = log, {}

    def make(self, base, *a, **k):
        if base not in self.cls:
            self.cls[base] = self._class(base)
        return self.cls[base](*a, **k)

    def _class(self, base):
        log = self.log

        class P(base):
            def __init__(self, *a, **k):
                self.pid = log.new()
                super().__init__(*a, **k)

            def setup(self, model):
                log.hook("setup", self.pid)
                super().setup(model)

            def reset(self):
                log.hook("reset", self.pid)
                super().reset()

            def before(self, ts):
                log.hook("before", self.pid, ts.index)
                super().before(ts)

            def after(self, ts, *a):
                log.hook("after", self.pid, ts.index)
                super().after(ts, *a)

            def finish(self):
                log.hook("finish", self.pid)
                super().finish()
        P.__name__ = "Probe" + base.__name__
        return P


class ProbeParam(Parameter):
    def __init__(self, model, log, nodes=(), base=-5.0, **kw):
        self.log, self.pid, self.base = log, log.new(), base
        super().__init__(model, **kw)

    def setup(self):
        super().setup()
        self.log.hook("setup", self.pid)

    def reset(self):
        super().reset()
        self.log.hook("reset", self.pid)

    def before(self):
        super().before()
        self.log.hook("before", self.pid, self.model.timestep.index)

    def value(self, ts, si):
        if si.global_id == 0:
            self.log.hook("value", self.pid, ts.index)
        return self.base - ts.index

    def after(self):
        super().after()
        self.log.hook("after", self.pid, self.model.timestep.index)

    def finish(self):
        super().finish()
        self.log.hook("finish", self.pid)


class ProbeRec(Recorder):
    def __init__(self, model, log, **kw):
        self.log, self.pid = log, log.new()
        super().__init__(model, **kw)

    def setup(self):
        super().setup()
        self.log.hook("setup", self.pid)

    def reset(self):
        super().reset()
        self.log.hook("reset", self.pid)

    def before(self):
        super().before()
        self.log.hook("before", self.pid, self.model.timestep.index)

    def after(self):
        super().after()
        self.log.hook("after", self.pid, self.model.timestep.index)

    def finish(self):
        super().finish()
        self.log.hook("finish", self.pid)


def value_probe(cls, log):
    """a subclass of a component class that logs the phases and when its values are computed"""
    class V(cls):
        def setup(self):
            super().setup()
            log.hook("setup", self.pid)

        def value(self, ts, si):
            if si.global_id == 0 and not isinstance(self, IndexParameter):
                log.hook("value", self.pid, ts.index)
            return super().value(ts, si)

        def index(self, ts, si):
            if si.global_id == 0:
                log.hook("value", self.pid, ts.index)
            return super().index(ts, si)

        def before(self):
            super().before()
            log.hook("before", self.pid, self.model.timestep.index)

        def reset(self):
            super().reset()
            log.hook("reset", self.pid)

        def after(self):
            super().after()
            log.hook("after", self.pid, self.model.timestep.index)

        def finish(self):
            super().finish()
            log.hook("finish", self.pid)
    V.__name__ = "V" + cls.__name__
    return V


class Leaf(Parameter):
    """a parameter whose value is given per timestep (or fixed), logging when it is computed"""
    def __init__(self, model, log, table, static=None, **kw):
        self.log, self.pid, self.table, self.static = log, log.new(), table, static
        super().__init__(model, **kw)

    def setup(self):
        super().setup()
        self.log.hook("setup", self.pid)

    def reset(self):
        super().reset()
        self.log.hook("reset", self.pid)

    def before(self):
        super().before()
        self.log.hook("before", self.pid, self.model.timestep.index)

    def value(self, ts, si):
        if si.global_id == 0:
            self.log.hook("value", self.pid, ts.index)
        return self.table[ts.index if self.static is None else self.static] + si.global_id * 0.125

    def after(self):
        super().after()
        self.log.hook("after", self.pid, self.model.timestep.index)

    def finish(self):
        super().finish()
        self.log.hook("finish", self.pid)


class IndexLeaf(IndexParameter):
    def __init__(self, model, log, table, static=None, **kw):
        self.log, self.pid, self.table, self.static = log, log.new(), table, static
        super().__init__(model, **kw)

    def setup(self):
        super().setup()
        self.log.hook("setup", self.pid)

    def reset(self):
        super().reset()
        self.log.hook("reset", self.pid)

    def before(self):
        super().before()
        self.log.hook("before", self.pid, self.model.timestep.index)

    def index(self, ts, si):
        if si.global_id == 0:
            self.log.hook("value", self.pid, ts.index)
        return int(self.table[ts.index if self.static is None else self.static])

    def after(self):
        super().after()
        self.log.hook("after", self.pid, self.model.timestep.index)

    def finish(self):
        super().finish()
        self.log.hook("finish", self.pid)
