"""Shared machinery: run TLC, run cases against the real pywr in forked workers, validate the recorded
traces with TLC, report violations / known findings and write the evidence file."""
import contextlib, hashlib, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SOLVERS = ["glpk", "glpk-edge", "lpsolve"]

NAN = -2000000001
INF = 2000000000
LIM = 1900000000


class Machinery(Exception):
    """the check itself failed (exit 2)"""


def q(x, s=1000):
    """real number -> scaled 32-bit integer (NaN/inf as sentinels)"""
    x = float(x)
    if math.isnan(x):
        return NAN
    v = x * s
    if v > LIM:
        return INF
    if v < -LIM:
        return -INF
    return int(math.floor(v + 0.5))


def ql(xs, s=1000):
    return [q(x, s) for x in xs]


def errname(e):
    return type(e).__name__


class TLCResult:
    pass


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, int(seed)
        self.quick = tier != "thorough"
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/tmp")
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []       # (key, text, payload)
        self.known_hit = []
        self.mc_runs = []
        self.known = []
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(EVID, "replay")):
            if f.startswith(self.pid + "_"):
                os.unlink(os.path.join(EVID, "replay", f))
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("property") == pid and k.get("status", "known") == "known":
                        self.known.append(k)

    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 8)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="3g"):
        cfg = cfg or module
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg + ".cfg")] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        shutil.rmtree(md, ignore_errors=True)
        r = TLCResult()
        r.out, r.rc = p.stdout, p.returncode
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r.ok = "No error has been found" in r.out
        return r

    def model_check(self, module, cfg=None, env=None, workers=4, deadlock=False, args=(), min_states=2, timeout=800):
        """exhaustive check of a small instance of the specification: its invariants must hold"""
        a = list(args) + ([] if deadlock else ["-deadlock"])
        r = self.tlc(module, cfg, env, workers, a, timeout=timeout)
        if not r.ok or r.distinct < min_states:
            raise Machinery("TLC on %s/%s: not ok\n%s" % (module, cfg, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_runs.append({"module": module, "cfg": cfg or module, "distinct": r.distinct, "generated": r.generated})
        return r

    def generate(self, module, cfg=None, env=None, workers=4, args=(), timeout=800):
        """behaviours/inputs enumerated by TLC: everything printed as <<"GEN", json>>"""
        r = self.model_check(module, cfg, env, workers, args=args, timeout=timeout)
        out = []
        for m in re.finditer(r'^<<"GEN", "(.*)">>$', r.out, re.M):
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if not out:
            raise Machinery("nothing generated by %s\n%s" % (module, r.out[-2000:]))
        out.sort(key=lambda d: json.dumps(d, sort_keys=True))
        return out

    # --------------------------------------------------------- real-code runs
    def run_cases(self, func, cases, procs=8, case_timeout=120):
        """run func(case) -> trace dict in forked workers (scratch cwd); crashes, hangs and unexpected
        exceptions become observations {"err": ...}"""
        n = len(cases)
        procs = max(1, min(procs, n))
        res = [None] * n
        todo = [list(range(i, n, procs)) for i in range(procs)]
        live = {}
        sys.stdout.flush()

        def start(w):
            if not todo[w]:
                return
            path = os.path.join(self.scratch, "w%d.jsonl" % w)
            open(path, "w").close()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    d = tempfile.mkdtemp(prefix="run%d_" % w, dir=self.scratch)
                    os.chdir(d)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.dup2(devnull, 2)
                    with open(path, "w") as f:
                        for i in todo[w]:
                            f.write("S %d\n" % i)
                            f.flush()
                            try:
                                t = func(cases[i])
                            except Exception as e:
                                t = {"err": errname(e), "tb": traceback.format_exc()[-1500:]}
                            f.write("R " + json.dumps([i, t]) + "\n")
                            f.flush()
                    code = 0
                finally:
                    os._exit(code)
            live[pid] = (w, path, time.time())

        def collect(w, path, died):
            last = None
            done = set()
            for line in open(path):
                if line[0] == "S":
                    last = int(line[2:])
                elif line.endswith("\n"):
                    i, t = json.loads(line[2:])
                    res[i] = t
                    done.add(i)
            if died and last is not None and last not in done:
                res[last] = {"err": died, "tb": ""}
                done.add(last)
            todo[w] = [i for i in todo[w] if i not in done]

        for w in range(procs):
            start(w)
        prog = {}
        while live:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (w, path, ts) in list(live.items()):
                    sz = os.path.getsize(path)
                    if prog.get(p, (None,))[0] != sz:
                        prog[p] = (sz, now)
                    elif now - prog[p][1] > case_timeout:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        del live[p]
                        collect(w, path, "Hang")
                        start(w)
                time.sleep(0.02)
                continue
            if pid in live:
                w, path, ts = live.pop(pid)
                ok = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
                collect(w, path, None if ok else "Crash")
                if todo[w]:
                    start(w)
        return res

    # ------------------------------------------------------ trace validation
    def validate(self, module, cases, traces, cfg=None, chunks=None, key=None, extra=None, what=None, workers=1):
        """TLC decides every recorded trace.  traces[i] is a dict with "ev" (list of events) or "err".
        Every mismatch becomes a violation; a trace neither accepted nor rejected is a machinery failure."""
        idx, docs = [], []
        for i, t in enumerate(traces):
            if t is None:
                raise Machinery("case %d has no trace" % i)
            if "err" in t:
                self.violation(key(cases[i]) if key else None, "UnexpectedError: %s" % t["err"],
                               {"case": cases[i], "trace": t}, what)
                continue
            idx.append(i)
            docs.append(t)
        if not docs:
            return 0
        nch = chunks or max(1, min(6, len(docs) // 40))
        parts = [list(range(k, len(docs), nch)) for k in range(nch)]

        def one(part):
            path = os.path.join(self.scratch, "doc_%s_%d_%d.json" % (module, id(part) % 10 ** 9, part[0]))
            d = {"cases": [docs[j] for j in part]}
            if extra:
                d.update(extra)
            with open(path, "w") as f:
                json.dump(d, f)
            r = self.tlc(module, cfg, {"TRACE": path}, workers, ["-deadlock"])
            if os.environ.get("VERIF_KEEP"):
                shutil.copy(path, "/tmp/keep_%s_%d.json" % (module, part[0]))
            os.unlink(path)
            return r
        with ThreadPoolExecutor(max_workers=6) as ex:
            rs = list(ex.map(one, parts))
        nbad = 0
        for part, r in zip(parts, rs):
            if not r.ok:
                raise Machinery("TLC on trace spec %s failed\n%s" % (module, r.out[-4000:]))
            expect = sum(len(docs[j]["ev"]) + 1 for j in part)
            if r.distinct != expect:
                raise Machinery("%s: %d states for %d expected\n%s" % (module, r.distinct, expect, r.out[-2000:]))
            self.states += r.distinct
            self.transitions += r.generated
            bad = {}
            flat = re.sub(r"\n\s+", " ", r.out).replace('\\"', '"')
            for m in re.finditer(r'<<\s*"MISMATCH", (\d+), (\d+), (.*?)>>@', flat):
                bad.setdefault(int(m.group(1)), []).append((int(m.group(2)), m.group(3)))
            if flat.count("MISMATCH") != sum(len(x) for x in bad.values()):
                raise Machinery("unparsed mismatch\n" + r.out[-3000:])
            for j1, lst in sorted(bad.items()):
                j = part[j1 - 1]
                i = idx[j]
                nbad += 1
                lst.sort()
                step, clause = lst[0]
                clauses = sorted(set(re.findall(r'"([A-Za-z][\w.\-:]*)"', " ".join(c for _, c in lst))))
                self.violation(key(cases[i]) if key else None,
                               "%s step %d: %s" % (what or module, step, clause[:300]),
                               {"case": cases[i], "trace": traces[i], "mismatches": lst[:20], "module": module},
                               what, clauses)
            self.validated += len(part)
        return nbad

    def violation(self, key, text, payload, what=None, clauses=()):
        for k in self.known:
            if k["key"] == key and (not k.get("clauses") or set(clauses) <= set(k["clauses"])):
                self.known_hit.append((k, text))
                return
        self.viol.append((key, text, payload))

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    # ------------------------------------------------------------- the verdict
    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.validated,
                                "samples": self.samples[:6] or ["none"],
                                "model_check_runs": self.mc_runs,
                                "known_findings_hit": len(self.known_hit)}, **self.extra),
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        seen = set()
        for k, text in self.known_hit:
            if k["key"] not in seen:
                seen.add(k["key"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if not self.viol:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.validated,
                                                                   time.time() - self.t0))
            return 0
        shown = 0
        for n, (key, text, payload) in enumerate(self.viol):
            if shown >= int(os.environ.get("VERIF_SHOW", "5")):
                break
            shown += 1
            rp = os.path.join("evidence", "replay", "%s_%d.json" % (self.pid, n))
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump({"property": self.pid, "key": key, "what": text, "payload": payload}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s  %s" % (self.pid, rp, text[:300].replace("\n", " ")))
        print("FAILED property=%s: %d violating cases" % (self.pid, len(self.viol)))
        return 1


def prepare(m, always=False):
    """set a model up as its run does: only when something has changed since it was set up"""
    if always or m.dirty or m.timestepper.dirty:
        m.setup()


def period(m, start, end):
    """the period of the next run; a period which stays the same is not set again"""
    t = m.timestepper
    for k, v in (("start", start), ("end", end)):
        if str(getattr(t, k)) != str(v) and str(getattr(t, k))[:10] != str(v):
            setattr(t, k, v)
