"""C28: data read from files and tables against Tables.tla"""
import copy, datetime, hashlib, json, os, random, shutil, warnings
import numpy as np
import pandas as pd
import tables as pytables
from common import q
from pywr.core import Model
from pywr.dataframe_tools import load_dataframe
import pywr.recorders, pywr.domains.river

LETTERS = ["a", "b", "c", "d", "Upper", "two words", "x1", "10"]
KINDS = ["csv", "csv", "csv", "gz", "xlsx", "hdf", "hdf", "dict", "dict"]
ALGOS = ["md5", "sha256", "sha1", "sha512"]


def lab(x):
    if isinstance(x, (tuple, list)):
        return "|".join(lab(y) for y in x)
    if isinstance(x, (pd.Timestamp, datetime.date)):
        return "d:" + pd.Timestamp(x).strftime("%Y-%m-%d")
    if isinstance(x, (int, np.integer)):
        return "i:%d" % x
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return "i:%d" % x
    return "s:%s" % x


def gen_table(rng, role):
    """labels and cells, and the way they are stored"""
    t = {"kind": rng.choice(KINDS), "role": role, "form": {}}
    if role == "array":
        t["kind"], role = "array", "any"
        t["role"] = "any"
    k, f = t["kind"], t["form"]
    nr, nc = rng.randrange(1, 6), rng.randrange(1, 5)
    if role == "dates":
        nr = 12
    elif role == "months":
        nr = 12
        if rng.random() < .4:
            nr, nc = rng.randrange(2, 5), 12
    t["cols"] = rng.sample(LETTERS, nc) if nc < 9 else ["m%d" % (i + 1) for i in range(12)]
    if k in ("dict", "hdf") and nc < 9 and rng.random() < .2 and role == "any":
        t["cols"] = [int(x) for x in rng.sample(range(0, 30), nc)] if k == "hdf" else t["cols"]
    rows = rng.choice(["names", "names", "ints", "range", "pairs"]) if role == "any" else rng.choice(["names", "ints", "range"])
    if role == "dates":
        rows = "dates"
    if k == "array":
        rows, nr = "range", rng.randrange(2, 9)
    if k == "dict" and rows in ("pairs", "ints"):
        rows = "names"
    if rows == "names":
        t["rows"] = rng.sample(LETTERS[:-1], nr) if nr < 8 else ["r%d" % i for i in rng.sample(range(20), nr)]
    elif rows == "ints":
        t["rows"] = rng.sample(range(0, 40), nr)
    elif rows == "range":
        t["rows"] = list(range(nr))
    elif rows == "pairs":
        t["rows"] = [list(p) for p in rng.sample([(i, n) for i in range(3) for n in ("p", "q", "r")], nr)]
    else:
        d0 = datetime.date(rng.choice([1999, 2000, 2015]), rng.randrange(1, 13), rng.randrange(1, 29))
        t["rows"] = [str(d0 + datetime.timedelta(i)) for i in range(nr)]
    t["by"] = rows
    if k in ("csv", "gz", "hdf") and rows in ("names", "range") and role == "any" and rng.random() < .2:
        t["cols"] = [list(p) for p in rng.sample([(n, m) for n in ("p", "q", "r") for m in ("u", "w")], min(nc, 5))]
        t["over"] = True
    f["nan"] = role == "any" and k != "array" and rng.random() < .2
    t["v"] = [[rng.randrange(0, 4000) / 8 if rng.random() < .95 or not f["nan"] else None for _ in t["cols"]] for _ in t["rows"]]
    f["whole"] = role == "any" and rng.random() < .3 and not f["nan"]
    if f["whole"]:
        t["v"] = [[int(x) for x in r] for r in t["v"]]
    f["sep"] = rng.choice([",", ",", ";", "\t"])
    f["named"] = rng.random() < .5
    f["ext"] = {"csv": rng.choice([".csv", ".csv", ".dat", ".txt"]), "gz": ".csv.gz", "xlsx": ".xlsx", "hdf": rng.choice([".h5", ".hdf", ".hdf5"]), "array": ".h5", "dict": ""}[k]
    f["filetype"] = f["ext"] in (".dat", ".txt") or rng.random() < .2
    f["dir"] = rng.choice(["", "", "data/", "../other/"])
    f["abs"] = rng.random() < .15
    f["sheet"] = rng.choice([None, "first", "second", 1])
    f["key"] = rng.choice([None, "k1", "grp/k2"])
    f["fmt"] = "fixed" if t.get("over") else rng.choice(["fixed", "table"])
    f["orient"] = rng.choice(["columns", "columns", "lists", "index"])
    if f["orient"] == "lists" and rows != "range" or rows == "range" and k == "dict":
        f["orient"] = "lists" if rows == "range" else "columns"
    f["comment"] = rng.random() < .3
    if t["kind"] != "dict" and rng.random() < .5:
        f["sums"] = rng.sample(ALGOS, rng.randrange(1, 3))
    return t


def ask_of(rng, t, bad=.1):
    cs, rs = list(t["cols"]), list(t["rows"])
    a = {}
    c = rng.random()
    if c < .45:
        a["column"] = rng.choice(cs)
    elif c < .7 and not t.get("over"):
        a["columns"] = rng.sample(cs, rng.randrange(1, len(cs) + 1))
    c = rng.random()
    if t["by"] == "dates":
        c = c * 2
    if c < .45:
        a["index"] = rng.choice(rs)
    elif c < .65 and "column" not in a and t["by"] not in ("pairs", "dates"):
        a["indexes"] = rng.sample(rs, rng.randrange(1, len(rs) + 1))
    if rng.random() < bad and a:
        k = rng.choice(list(a))
        none = ["nope", "b", "A", "upper", "d", "11"]
        n = rng.choice([x for x in none if x not in (cs if k.startswith("col") else rs)])
        if k in ("index", "indexes") and t["by"] in ("ints", "range"):
            n = rng.choice([x for x in (40, len(rs), -1) if x not in rs])
        if t["by"] == "pairs" and k == "index":
            n = rng.choice([[7, "p"], [0, "zz"]])
        if t["by"] == "dates" and k == "index":
            n = "1950-01-01"
        if t.get("over") and k == "column":
            n = ["p", "zz"]
        if k in ("columns", "indexes"):
            a[k].insert(rng.randrange(len(a[k]) + 1), n)
        else:
            a[k] = n
    return a


def sums_of(rng, t):
    s = t["form"].get("sums")
    if not s:
        return []
    out = []
    for algo in s:
        how = rng.choice(["right"] * 6 + ["upper", "upper", "wrong", "short"]) if rng.random() < .9 else rng.choice(["other", "long"])
        out.append([algo, how])
    return out


def reader(rng, case, role="any", bad=.1):
    i = rng.randrange(len(case["tabs"]))
    t = case["tabs"][i]
    r = {"t": i, "ask": ask_of(rng, t, bad), "via": "entry" if i in case["entries"] and rng.random() < .6 else "own", "sums": [], "fault": None}
    if r["via"] == "own":
        r["sums"] = sums_of(rng, t) if bad else [[a, rng.choice(["right", "upper"])] for a, _ in sums_of(rng, t)]
        if rng.random() < bad / 2:
            r["fault"] = rng.choice(["gone", "extension", "nothing", "typed", "sheet"])
    elif rng.random() < bad / 3:
        r["fault"] = "noentry"
    return r


def gen(rng):
    case = {"seed": rng.randrange(1 << 30), "tabs": [], "entries": []}
    case["what"] = rng.choice(["direct", "direct", "document", "model"])
    if case["what"] == "model":
        case["tabs"] = [gen_table(rng, r) for r in rng.sample(["any", "any", "dates", "months", "any", "array", "array"], rng.randrange(2, 5))]
    else:
        case["tabs"] = [gen_table(rng, rng.choice(["any", "any", "any", "dates"] + ["array"] * (case["what"] == "document"))) for _ in range(rng.randrange(1, 4))]
    case["entries"] = [i for i in range(len(case["tabs"])) if rng.random() < (.6 if case["what"] != "model" else .5) and case["tabs"][i]["kind"] != "array"]
    case["cut"] = {i: rng.random() < .15 and case["what"] == "direct" for i in case["entries"]}
    if case["what"] == "direct":
        case["sums"] = {i: [] for i in case["entries"]}
        case["readers"] = [reader(rng, case) for _ in range(rng.randrange(2, 9))]
        case["same"] = rng.random() < .7
    elif case["what"] == "document":
        b = rng.choice([0, 0, .25])
        case["sums"] = {i: [[a, h if b and rng.random() < .5 else rng.choice(["right", "upper"])] for a, h in sums_of(rng, case["tabs"][i])] for i in case["entries"]}
        case["readers"] = [reader(rng, case, bad=b) for _ in range(rng.randrange(1, 5))]
        for r in case["readers"]:
            t = case["tabs"][r["t"]]
            if t["kind"] == "array":
                r.update(ask={}, fault=None, how="array")
                continue
            # the parameters of a document hold straight selections without gaps
            if t["kind"] == "dict" and r["via"] == "own":
                r["via"] = "entry"
                r["sums"], r["fault"] = [], None
                if r["t"] not in case["entries"]:
                    case["entries"].append(r["t"])
                    case["sums"][r["t"]] = []
                    case["cut"][r["t"]] = False
            r["pin"] = True
            bad = {k: v for k, v in r["ask"].items() if (lab(v) not in [lab(x) for x in (t["cols"] if k == "column" else t["rows"])])} if not (set(r["ask"]) - {"column", "index"}) else {}
            r["ask"] = {"column": rng.choice(t["cols"]), "index": rng.choice(t["rows"])}
            r["ask"].update(bad)
            r["how"] = "one"
        case["use"] = rng.choice(["parameter", "inline", "attribute"])
    else:
        case["sums"] = {i: [[a, rng.choice(["right", "upper"])] for a, _ in sums_of(rng, case["tabs"][i])] for i in case["entries"]}
        case["month0"] = rng.randrange(1, 13)
        case["n"] = rng.randrange(2, 6)
        case["width"] = rng.randrange(1, 5)
        ws = [len(t["rows"]) for t in case["tabs"] if len(t["cols"]) == 12] + [len(t["cols"]) for t in case["tabs"] if t["role"] == "dates" or len(t["rows"]) >= case["n"]]
        ws = [x for x in ws if 1 < x < 6]
        if ws and rng.random() < .8:
            case["width"] = rng.choice(ws)
        case["day0"] = next((t["rows"][rng.randrange(0, 4)] for t in case["tabs"] if t["role"] == "dates"), "2015-03-30")
        case["readers"] = []
        for i, t in enumerate(case["tabs"]):
            for _ in range(rng.randrange(1, 3)):
                u = use(rng, case, i, t)
                if u:
                    case["readers"].append(u)
        if not case["readers"]:
            return gen(rng)
    if case["what"] != "direct":
        case["file"] = rng.choice([True, True, False])
        case["order"] = rng.random()
    return case


def use(rng, case, i, t):
    """a component which takes its values from the table"""
    r = {"t": i, "via": "entry" if i in case["entries"] and (rng.random() < .7 or t["kind"] == "dict") else "own", "sums": [], "fault": None}
    if r["via"] == "own":
        r["sums"] = [[a, rng.choice(["right", "upper"])] for a, _ in sums_of(rng, t)]
    nr, nc = len(t["rows"]), len(t["cols"])
    if t["form"]["nan"]:
        return None
    if t["kind"] == "array":
        if nr < case["n"]:
            return None
        if nc >= case["width"] and rng.random() < .7:
            return dict(r, how="arrayscen", ask={})
        return dict(r, how="array", ask={"column": t["cols"][0]})
    if t["role"] == "dates":
        n = len(t["rows"]) - t["rows"].index(case["day0"]) if case["day0"] in t["rows"] else 0
        if n < case["n"]:
            return None
        r["how"] = rng.choice(["frame", "frame", "framescen"]) if nc == case["width"] and nc > 1 else "frame"
        r["ask"] = {} if r["how"] == "framescen" else {"column": rng.choice(t["cols"])} if rng.random() < .7 else {"columns": [rng.choice(t["cols"])]}
        r["own"] = rng.random() < .7 and r["via"] == "own" or t["kind"] == "dict"
        if t["kind"] == "dict" and r["via"] == "own":
            r["inline"] = True
        return r
    if t["kind"] == "dict" and r["via"] == "own":
        return None
    if t["role"] == "months":
        r["how"] = "profile"
        if nr == case["width"] and nc == 12 and rng.random() < .7 and t["by"] != "dates":
            return dict(r, how=rng.choice(["profiles", "factors"]), ask={})
        r["ask"] = {"column": rng.choice(t["cols"])} if nr == 12 else {"index": rng.choice(t["rows"])}
        return r
    opts = ["one"]
    w = case["width"]
    if nr >= case["n"] and nc == w:
        opts += ["grid"] * 3
    for k, n in (("column", nr), ("index", nc)):
        if n == w:
            opts.append("scen-" + k)
        if n >= case["n"]:
            opts.append("time-" + k)
        if n >= 2:
            opts.append("curve-" + k)
        if n == w and n >= 2:
            opts.append("combo-" + k)
    if nr >= w and w > 1:
        opts.append("scen-indexes")
    if nc >= w and w > 1 and not t.get("over"):
        opts.append("scen-columns")
    h = rng.choice(opts[1:] * 3 + opts[:1])
    if t["by"] == "pairs" and h == "scen-indexes":
        return None
    r["how"] = h.split("-")[0]
    k = h.split("-")[1] if "-" in h else ""
    if h == "one":
        r["ask"] = {"column": rng.choice(t["cols"]), "index": rng.choice(t["rows"])}
    elif h == "grid":
        r["ask"] = {} if t.get("over") or rng.random() < .5 else {"columns": rng.sample(t["cols"], w)}
    elif k == "column":
        r["ask"] = {"column": rng.choice(t["cols"])}
    elif k == "index":
        r["ask"] = {"index": rng.choice(t["rows"])}
    elif k == "indexes":
        r["ask"] = {"columns": [rng.choice(t["cols"])], "indexes": rng.sample(t["rows"], w)} if not t.get("over") else {"column": t["cols"][0], "index": t["rows"][0]}
        if t.get("over"):
            r["how"] = "one"
    else:
        r["ask"] = {"index": rng.choice(t["rows"]), "columns": rng.sample(t["cols"], w)}
    return r


# ---------------------------------------------------------------------------------------------------------------------------------
def frame_of(t):
    ix = pd.MultiIndex.from_tuples([tuple(r) for r in t["rows"]], names=["i", "j"]) if t["by"] == "pairs" else pd.DatetimeIndex(t["rows"], name="when") if t["by"] == "dates" else pd.Index(t["rows"], name="row")
    cs = pd.MultiIndex.from_tuples([tuple(x) for x in t["cols"]]) if t.get("over") else t["cols"]
    v = [[np.nan if x is None else x for x in r] for r in t["v"]]
    return pd.DataFrame(v, index=ix, columns=cs)


def write(t, i, base):
    """store a table; the keyword arguments which read it"""
    f, k, df = t["form"], t["kind"], frame_of(t)
    if k == "dict":
        vs = t["v"] if not f["nan"] else [[float("nan") if x is None else x for x in r] for r in t["v"]]
        rs, kw = t["rows"], {}
        if f["orient"] == "lists":
            d = {c: [r[j] for r in vs] for j, c in enumerate(t["cols"])}
        elif f["orient"] == "index":
            d, kw = {r: dict(zip(t["cols"], vs[n])) for n, r in enumerate(rs)}, {"orient": "index"}
        else:
            d = {c: {r: vs[n][j] for n, r in enumerate(rs)} for j, c in enumerate(t["cols"])}
        kw["data"] = d
        if t["by"] == "dates":
            kw["parse_dates"] = True
        t["file"] = None
        return kw
    rel = f["dir"] + "tab%d" % i + f["ext"]
    path = os.path.normpath(os.path.join(base, rel))
    t["file"] = path
    kw = {"url": path if f["abs"] else rel}
    ic = [0, 1] if t["by"] == "pairs" else 0
    if k == "array":
        with pytables.open_file(path, "w") as h:
            a = np.array(t["v"])
            h.create_carray("/", "first", obj=a * 0 - 7)
            h.create_group("/", "grp")
            h.create_carray("/grp", "arr", obj=a.astype(np.int32) if f["whole"] else a)
            h.create_carray("/", "arr", obj=a * 0 - 9)
        kw.update(node="arr", where="/grp")
        return kw
    if k in ("csv", "gz"):
        df.to_csv(path, sep=f["sep"], index=t["by"] != "range" or t.get("over", False))
        if f["sep"] != ",":
            kw["sep"] = f["sep"]
        if t["by"] != "range" or t.get("over"):
            kw["index_col"] = ic if t.get("over") or not f["named"] else {"pairs": ["i", "j"], "dates": "when"}.get(t["by"], "row")
        if t.get("over"):
            kw["header"] = [0, 1]
        if t["by"] == "dates":
            kw["parse_dates"] = True
        if f["filetype"]:
            kw["filetype"] = "csv"
    elif k == "xlsx":
        other = df * 0 - 7
        with pd.ExcelWriter(path) as w:
            fs = [("first", df), ("second", other)] if f["sheet"] in (None, "first") else [("first", other), ("second", df)]
            for n, x in fs:
                x.to_excel(w, sheet_name=n)
        kw["index_col"] = ic
        if f["sheet"] is not None:
            kw["sheet_name"] = f["sheet"]
        if t["by"] == "dates":
            kw["parse_dates"] = True
        if f["filetype"]:
            kw["filetype"] = "excel"
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df.to_hdf(path, key=f["key"] or "only", format=f["fmt"])
            if f["key"]:
                (df * 0 - 7).to_hdf(path, key="zz", format=f["fmt"])
        if f["key"]:
            kw["key"] = f["key"]
        if f["filetype"]:
            kw["filetype"] = "hdf"
    if f["comment"]:
        kw["comment"] = "read me"
    return kw


def checksum(path, algo, how):
    h = hashlib.new(algo, open(path, "rb").read()).hexdigest()
    if how == "upper":
        return h.upper()
    if how == "wrong":
        n = len(h) // 2
        return h[:n] + ("0" if h[n] != "0" else "1") + h[n + 1:]
    if how == "short":
        return h[:-1]
    if how == "long":
        return h + "0"
    if how == "other":
        return hashlib.new("sha1" if algo != "sha1" else "md5", open(path, "rb").read()).hexdigest()
    return h


def source(case, kws, r):
    """the description of a reader's source, and whether it is there and well described"""
    t = case["tabs"][r["t"]]
    ok = {"there": True, "well": True}
    if r["via"] == "entry":
        d = {"table": "t%d" % r["t"]}
        if r["fault"] == "noentry":
            d["table"] += "x"
            ok["there"] = False
    else:
        d = copy.deepcopy(kws[r["t"]])
        if r["sums"]:
            d["checksum"] = {a: checksum(t["file"], a, h) for a, h in r["sums"]}
        f = r["fault"]
        if f == "gone" and "url" in d:
            d["url"] = d["url"].replace("tab", "tub")
            ok["there"] = False
        elif f == "extension" and t["kind"] in ("csv",):
            ok["well"] = t["form"]["ext"] == ".csv"
            d.pop("filetype", None)
        elif f == "nothing":
            d.pop("url", None)
            d.pop("data", None)
            ok["well"] = False
        elif f == "typed":
            d["filetype"] = "csv" if "data" in d else "unknown"
            ok["well"] = False
        elif f == "sheet" and t["kind"] == "xlsx":
            d["sheet_name"] = "third"
            ok["there"] = False
        elif f == "sheet" and t["kind"] == "hdf":
            d["key"] = "third"
            ok["there"] = False
    for k, v in r["ask"].items():
        if t["kind"] != "array":
            d[k] = copy.deepcopy(v)
    return d, ok


def asked(r):
    out = {"column": [], "columns": [], "index": [], "indexes": []}
    for k, v in r["ask"].items():
        out[k] = [[lab(x) for x in v]] if k in ("columns", "indexes") else [lab(v)]
    return out


def right(sums):
    return [h in ("right", "upper") for _, h in sums]


def event(case, r, ok, **kw):
    t = case["tabs"][r["t"]]
    sums = case["sums"].get(r["t"], []) if r["via"] == "entry" else r["sums"] if t["kind"] != "dict" else []
    return dict({"t": r["t"] + 1, "ask": dated(asked(r), t), "sums": right(sums), **ok}, **kw)


def dated(a, t):
    if t["by"] != "dates":
        return a
    f = lambda x: "d:" + x[2:] if x.startswith("s:") else x
    a["index"] = [f(x) for x in a["index"]]
    return a


def got(x):
    if isinstance(x, pd.DataFrame):
        return {"ok": True, "shape": "frame", "rows": [lab(i) for i in x.index], "cols": [lab(i) for i in x.columns], "v": [[q(float(y)) for y in r] for r in x.values]}
    if isinstance(x, pd.Series):
        ls = [lab(i) for i in x.index]
        return {"ok": True, "shape": "line", "ls": ls, "v": [q(float(y)) for y in x.values]}
    return {"ok": True, "shape": "cell", "rows": [], "cols": [], "v": [[q(float(x))]]}


def told(x, ask):
    """a series is a column or a row, as was asked for"""
    g = got(x)
    if g["shape"] != "line":
        return g
    if ask["index"]:
        return {"ok": True, "shape": "row", "rows": [], "cols": g["ls"], "v": [g["v"]]}
    return {"ok": True, "shape": "col", "rows": g["ls"], "cols": [], "v": [[y] for y in g["v"]]}


NO = {"ok": False, "shape": "none", "rows": [], "cols": [], "v": []}


def tables_of(case):
    out = []
    for t in case["tabs"]:
        rows = [lab(r) for r in t["rows"]] if t["by"] != "dates" else ["d:" + r for r in t["rows"]]
        out.append({"rows": rows, "cols": [lab(x) for x in t["cols"]], "v": [[q(float("nan") if x is None else x) for x in r] for r in t["v"]]})
    return out


def play(case):
    case["cut"] = {int(k): v for k, v in case["cut"].items()}
    case["sums"] = {int(k): v for k, v in case["sums"].items()}
    base = os.path.join(os.getcwd(), "tabs%d" % case["seed"])
    shutil.rmtree(base, ignore_errors=True)
    top = os.path.join(base, "top")
    for d in (top, os.path.join(top, "data"), os.path.join(base, "other")):
        os.makedirs(d, exist_ok=True)
    here = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kws = [write(t, i, top) for i, t in enumerate(case["tabs"])]
            return {"tables": tables_of(case), "ev": {"direct": direct, "document": document, "model": model}[case["what"]](case, kws, top)}
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


def entries(case, kws):
    out = {}
    for i in case["entries"]:
        d = copy.deepcopy(kws[i])
        if case["sums"].get(i):
            d["checksum"] = {a: checksum(case["tabs"][i]["file"], a, h) for a, h in case["sums"][i]}
        out["t%d" % i] = d
    return out


def place(case, top, text):
    """the folder of a document, or its file, which may be given by a relative name"""
    rng = random.Random(case["seed"])
    p = os.path.join(top, "m.json")
    with open(p, "w") as f:
        f.write(text)
    if rng.random() < .3:
        os.chdir(rng.choice([top, os.path.dirname(top)]))
        p = os.path.relpath(p)
    return p if case.get("at") == "file" or rng.random() < .5 else os.path.dirname(p) or "."


def direct(case, kws, top):
    evs, one = [], None
    for r in case["readers"]:
        if one is None or not case["same"]:
            doc = {"metadata": {"title": "t"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-02", "timestep": 1}, "tables": entries(case, kws), "nodes": [], "edges": []}
            one = Model.load(doc, path=place(case, top, "{}"))
        d, ok = source(case, kws, r)
        e = event(case, r, ok, k="read")
        try:
            e["got"] = told(load_dataframe(one, d), e["ask"])
        except Exception as x:
            e["got"] = NO
        evs.append(e)
    return evs


def skeleton(case, kws):
    doc = {"metadata": {"title": "t"}, "timestepper": {"start": "2000-01-01", "end": "2000-01-03", "timestep": 1}, "solver": {"name": "glpk"}, "parameters": {}, "recorders": {},
           "nodes": [{"name": "in", "type": "input"}, {"name": "out", "type": "output", "max_flow": 1}], "edges": [["in", "out"]]}
    if case["entries"]:
        doc["tables"] = entries(case, kws)
    return doc


def load(case, doc, top):
    rng = random.Random(case["order"])
    for k in ("parameters", "recorders", "tables"):
        if k in doc:
            xs = list(doc[k].items())
            rng.shuffle(xs)
            doc[k] = dict(xs)
    text = json.dumps(doc)
    if case["file"]:
        return Model.load(place(dict(case, at="file"), top, text))
    return Model.load(json.loads(text), path=place(case, top, text))


def document(case, kws, top):
    """constants which are cells of tables"""
    doc, reads = skeleton(case, kws), []
    for n, r in enumerate(case["readers"]):
        d, ok = source(case, kws, r)
        reads.append(event(case, r, ok))
        if r["how"] == "array":
            doc["parameters"]["a%d" % n] = dict(d, type="tablesarray")
        elif case["use"] == "attribute":
            doc["nodes"].append({"name": "st%d" % n, "type": "storage", "max_volume": 1e6, "initial_volume": d})
            doc["edges"] += [["in", "st%d" % n], ["st%d" % n, "out"]]
        elif case["use"] == "inline":
            doc["parameters"]["p%d" % n] = {"type": "aggregated", "agg_func": "sum", "parameters": [d, 0.0]}
        else:
            doc["parameters"]["p%d" % n] = dict(d, type="constant")
    for i in case["entries"]:
        reads.append({"t": i + 1, "ask": {"column": [], "columns": [], "index": [], "indexes": []}, "sums": right(case["sums"].get(i, [])), "there": True, "well": True})
    e = {"k": "load", "reads": reads}
    try:
        m = load(case, doc, top)
        e["ok"] = True
    except Exception as x:
        e["ok"] = False
        return [e]
    evs = [e]
    # a reader of a gap gives no value to compare
    gap = lambda r: None in [x for row in case["tabs"][r["t"]]["v"] for x in row]
    if case["use"] == "attribute":
        if not any(gap(r) for r in case["readers"]):
            for n, r in enumerate(case["readers"]):
                if r["how"] == "array":
                    continue
                evs.append(dict(reads[n], k="use", how="one", at=[0], got=[[q(float(m.nodes["st%d" % n].initial_volume))]]))
        return evs
    if any(gap(r) or r["how"] == "array" for r in case["readers"]):
        return evs
    m.setup()
    m.step()
    si = m.scenarios.combinations[0]
    for n, r in enumerate(case["readers"]):
        evs.append(dict(reads[n], k="use", how="one", at=[0], got=[[q(m.parameters["p%d" % n].get_value(si))]]))
    return evs


def model(case, kws, top):
    """parameters which hold rows, columns and whole tables"""
    doc = skeleton(case, kws)
    n, w = case["n"], case["width"]
    day0 = datetime.date.fromisoformat(case["day0"])
    months = case["readers"] and all(r["how"] == "profile" for r in case["readers"])
    doc["timestepper"] = {"start": str(day0), "end": str(day0 + datetime.timedelta(n - 1)), "timestep": 1}
    doc["scenarios"] = [{"name": "s", "size": w}]
    reads = []
    for k, r in enumerate(case["readers"]):
        d, ok = source(case, kws, r)
        reads.append(event(case, r, ok))
        h, p = r["how"], {}
        if h == "one":
            p = dict(d, type="constant")
        elif h == "scen":
            p = dict(d, type="constantscenario", scenario="s")
        elif h == "time":
            p = dict(d, type="arrayindexed")
        elif h == "grid":
            p = dict(d, type="arrayindexedscenario", scenario="s")
        elif h == "array":
            p = dict(d, type="tablesarray")
        elif h == "arrayscen":
            p = dict(d, type="tablesarray", scenario="s")
        elif h == "profiles":
            p = dict(d, type="scenariomonthlyprofile", scenario="s")
        elif h == "factors":
            p = {"type": "arrayindexedscenariomonthlyfactors", "scenario": "s", "values": [1.0] * n, "factors": d}
        elif h == "profile":
            p = dict(d, type="monthlyprofile")
        elif h == "frame":
            p = dict(d, type="dataframe")
        elif h == "framescen":
            p = dict(d, type="dataframe", scenario="s")
        elif h == "curve":
            # the steps of the curve: volumes 0, 1, 2, ... give the values of the line
            m_ = len(case["tabs"][r["t"]]["rows"]) if "column" in r["ask"] else len(case["tabs"][r["t"]]["cols"])
            doc["nodes"].append({"name": "st%d" % k, "type": "storage", "max_volume": float(m_), "initial_volume": float(case["seed"] % m_)})
            doc["edges"] += [["in", "st%d" % k], ["st%d" % k, "out"]]
            p = {"type": "interpolatedvolume", "node": "st%d" % k, "volumes": [float(i) for i in range(m_)], "values": d}
            r["pick"] = case["seed"] % m_
        elif h == "combo":
            p = {"type": "scenariowrapper", "scenario": "s", "parameters": [dict(d, type="constantscenario", scenario="s") for _ in range(w)]}
        doc["parameters"]["p%d" % k] = p
        doc["recorders"]["r%d" % k] = {"type": "numpyarrayparameter", "parameter": "p%d" % k}
    m = load(case, doc, top)
    m.run()
    evs = []
    for k, r in enumerate(case["readers"]):
        h, t = r["how"], case["tabs"][r["t"]]
        at = list(range(n))
        e = dict(reads[k], k="use", got=[[q(float(x)) for x in row] for row in m.recorders["r%d" % k].data])
        if h == "curve":
            # only the first step's volume is known here
            e["got"], at = e["got"][:1], [r["pick"]]
        if h in ("profile", "profiles", "factors"):
            at = [(day0 + datetime.timedelta(i)).month - 1 for i in range(n)]
        if h in ("frame", "framescen"):
            o = t["rows"].index(case["day0"])
            at = [o + i for i in range(n)]
        e["how"], e["at"] = {"one": "one", "scen": "scenario", "combo": "scenario", "framescen": "grid", "grid": "grid", "arrayscen": "grid", "profiles": "members", "factors": "members"}.get(h, "time"), at
        evs.append(e)
    return evs


def run(chk):
    chk.model_check("MCTables", None if chk.quick else "MCTablesFull")
    rng = chk.rng
    cases = [gen(rng) for _ in range(chk.n(400, 8000))]
    traces = chk.run_cases(play, cases)
    chk.validate("TraceTables", cases, traces, what="tables", chunks=6)
    kinds = {}
    for c, t in zip(cases, traces):
        kinds[c["what"]] = kinds.get(c["what"], 0) + 1
        for e in (t or {}).get("ev", []):
            k = e["k"] + (" refused" if e["k"] == "read" and not e["got"]["ok"] or e["k"] == "load" and not e["ok"] else "")
            kinds[k] = kinds.get(k, 0) + 1
    chk.extra["cases"] = kinds
    for c in cases[:2]:
        chk.sample({"what": c["what"], "readers": c["readers"]})
