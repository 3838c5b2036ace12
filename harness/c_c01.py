"""C01: the simulation clock."""
import datetime
from common import q

KINDS = {"W": ["W", "W-SUN", "W-WED", "W-SAT"], "M": ["M"], "Q": ["Q"], "Y": ["Y"]}
WD = {"W": 6, "W-SUN": 6, "W-WED": 2, "W-SAT": 5}


def fields(ts, pindex):
    i = ts.index
    return {"dt": ts.datetime.date().toordinal(),
            "idx_date": pindex[i].start_time.date().toordinal() if i < len(pindex) else -1, "f": {"index": i, "first": ts.period.start_time.date().toordinal(), "days": q(ts.days),
            "year": ts.year, "month": ts.month, "day": ts.day, "doy": ts.dayofyear, "doyi": ts.dayofyear_index,
            "week": ts.week_index, "leap": bool(ts.is_leap_year), "dcur": q(ts.days_in_current_year()),
            "dnext": q(ts.days_in_next_year())}}


def run_case(case):
    import pandas as pd
    from pywr.timestepper import Timestepper
    from pywr.core import Model, Input, Output
    from pywr.recorders import NumpyArrayNodeRecorder
    delta = case["delta"]
    if case["td"]:
        delta = datetime.timedelta(days=delta)
    ev = []
    p = {"start": case["start"], "end": case["end"], "freq": case["freq"]}
    s = datetime.date.fromordinal(case["start"]).isoformat()
    e = datetime.date.fromordinal(case["end"]).isoformat()
    if case["mode"] == "model":       # as seen by a component of a running model
        m = Model(solver="glpk-edge", start=s, end=e, timestep=delta)
        a, b = Input(m, "a", max_flow=1), Output(m, "b", max_flow=1, cost=-1)
        a.connect(b)
        seen = []
        from pywr.parameters import Parameter

        class Probe(Parameter):
            def value(self, ts, si):
                seen.append(fields(ts, m.timestepper.datetime_index))
                return 1.0
        a.max_flow = Probe(m, name="probe")
        rec = NumpyArrayNodeRecorder(m, b)
        m.run()
        idxd = [x.start_time.date().toordinal() for x in rec.to_dataframe().index]
        ev.append({"k": "begin", "p": p, "len": len(seen), "ilen": len(idxd)})
        for n, f in enumerate(seen):
            f["idx_date"] = idxd[n] if n < len(idxd) else -1
            ev.append(dict(f, k="step", fresh=n == 0))
        ev.append({"k": "end"})
        seen[:] = []
        m.run()                                      # a second run steps through the same period
        ev.append({"k": "begin", "p": p, "len": len(seen), "ilen": len(m.timestepper)})
        for n, f in enumerate(seen):
            ev.append(dict(f, k="step", fresh=n == 0))
        ev.append({"k": "end"})
        return {"ev": ev}
    if case["late"]:            # the attributes are changed after construction
        t = Timestepper()
        t.start, t.end, t.delta = s, e, delta
        t.setup()
    else:
        t = Timestepper(s, e, delta)
        t.setup()
    di = t.datetime_index
    ev.append({"k": "begin", "p": p, "len": len(t), "ilen": len(di)})
    for n, ts in enumerate(t):
        ev.append(dict(fields(ts, di), k="step", fresh=n == 0))
    ev.append({"k": "end"})
    for day in case["restarts"]:
        d = pd.Timestamp(datetime.date.fromordinal(day))
        try:
            t.reset(start=d)
        except ValueError:
            ev.append({"k": "refused", "p": p, "day": day})
            continue
        ev.append({"k": "restart", "p": p, "day": day})
        for n, ts in enumerate(t):
            ev.append(dict(fields(ts, di), k="step", fresh=n == 0))
            if n >= case["cap"]:
                break
        else:
            ev.append({"k": "end"})
    t.reset()
    ev.append({"k": "begin", "p": p, "len": len(t), "ilen": len(di)})
    ev.append(dict(fields(next(iter(t)), di), k="step", fresh=True))
    return {"ev": ev}


def gen(rng, mode):
    if rng.random() < 0.5:
        y = rng.choice([1899, 1900, 1904, 1999, 2000, 2003, 2004, 2015, 2016, 2019, 2020, 2099, 2100])
        m, d = rng.choice([(1, 1), (2, 27), (2, 28), (3, 1), (12, 20), (12, 31), (12, 30), (6, 15)])
        start = datetime.date(y, m, d).toordinal() + rng.choice([0, 0, 1])
    else:
        start = datetime.date(1950, 1, 1).toordinal() + rng.randrange(36000)
    k = rng.choice(["D"] * 5 + ["W", "M", "M", "Q", "Y"])
    n = 1
    td = False
    if k == "D":
        n = rng.choice([1, 1, 2, 3, 5, 7, 10, 14, 30, 31, 45, 90])
        delta = rng.choice([n, "%dD" % n])
        td = isinstance(delta, int) and rng.random() < 0.3
        wd = 6
    else:
        name = rng.choice(KINDS[k])
        wd = WD.get(name, 6)
        n = rng.choice([1, 1, 1, 2])
        delta = name if n == 1 else "%d%s" % (n, name)
    unit = {"D": n, "W": 7 * n, "M": 30 * n, "Q": 91 * n, "Y": 365 * n}[k]
    steps = rng.choice([1, 2, 5, 30, 60]) if unit < 40 else rng.choice([1, 3, 8])
    if k == "D" and n == 1 and rng.random() < 0.3:
        steps = 420
    span = max(0, unit * steps + rng.randrange(-unit, unit + 1))
    if rng.random() < 0.1:
        span = 0
    end = start + span
    rs = [rng.randrange(start - 3, end + 4) for _ in range(3)] + [start, end, start - 1, end + 1]
    return {"start": start, "end": end, "delta": delta, "td": td, "freq": {"kind": k, "n": n, "wd": wd},
            "restarts": rs, "cap": 12, "late": rng.random() < 0.3, "mode": mode}


def run(chk):
    chk.model_check("MCTimestepper")
    cases = [gen(chk.rng, "clock") for _ in range(chk.n(260, 3000))]
    cases += [gen(chk.rng, "model") for _ in range(chk.n(60, 600))]
    traces = chk.run_cases(run_case, cases)
    chk.validate("TraceTimestepper", cases, traces)
    for c in cases[:3]:
        chk.sample(c)
