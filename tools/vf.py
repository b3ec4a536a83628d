"""Shared machinery of the checks: build drivers, run TLC, validate traces, write evidence."""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
GOBIN = "/opt/veriftools/go1.23.12/bin"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, (os.cpu_count() or 4))


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def goenv():
    e = dict(os.environ)
    e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1")
    for k in ("GOROOT", "GOWORK"):
        e.pop(k, None)
    return e


def trim(out, n=2500):
    out = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Picked up", '"VFGEN')))
    return out[-n:]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{prop}:{seed}")
        self.work = tempfile.mkdtemp(prefix="verif.%s." % prop, dir="/tmp")
        self.states = 0
        self.transitions = 0
        self.traces_ok = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.findings = []      # known findings seen on this run
        self.violations = []    # (what, path)
        self.t0 = time.time()
        self._n = 0
        self._lock = __import__("threading").Lock()

    # ------------------------------------------------------------------ misc
    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        with self._lock:
            self._n += 1
            n = self._n
        return os.path.join(self.work, "%03d_%s" % (n, name))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ----------------------------------------------------------------- build
    def overlay(self, module, extra=None):
        """Overlay that lays every driver directory of a module (and of common) over the repository."""
        rep = {}
        mods = {"common", module}
        for m in mods:
            base = os.path.join(VERIF, "harness", m)
            if not os.path.isdir(base):
                continue
            for d, _, fs in os.walk(base):
                for f in fs:
                    if f.endswith(".go"):
                        rel = os.path.relpath(os.path.join(d, f), base)
                        rep[os.path.join(REPO, m, "verifdrv", rel)] = os.path.join(d, f)
        rep.update(extra or {})
        p = self.path("overlay.json")
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def build(self, module, drv, tags="", race=False, extra=None):
        """Builds harness/<module>/<drv> over /repo/<module>; returns the binary."""
        out = self.path(drv.replace("/", "_"))
        # stripped, as the test runner's binaries are: one dependency reads the executable at start-up and
        # does not survive a current Go's debug sections
        cmd = ["go", "build", "-ldflags=-s -w", "-overlay", self.overlay(module, extra), "-o", out]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        cmd += ["./verifdrv/" + drv]
        self._gobuild(cmd, module)
        return out

    def build_cmd(self, module, pkg, name, tags=""):
        """Builds one of the repository's own programs."""
        out = self.path(name)
        cmd = ["go", "build", "-ldflags=-s -w", "-o", out] + (["-tags", tags] if tags else []) + [pkg]
        self._gobuild(cmd, module)
        return out

    def _gobuild(self, cmd, module):
        # a copy of go.mod and go.sum, so that a driver's direct imports do not rewrite the repository's
        mod = self.path(module.replace("/", "_") + ".mod")
        for ext in ("mod", "sum"):
            src = os.path.join(REPO, module, "go." + ext)
            if os.path.exists(src):
                shutil.copy(src, mod[:-3] + ext)
        cmd = cmd[:2] + ["-modfile=" + mod] + cmd[2:]
        r = subprocess.run(cmd, cwd=os.path.join(REPO, module), env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

    # ---------------------------------------------------------------- driver
    def drive(self, binary, scripts, env=None, timeout=300, cwd=None, args=(), restarts=12, procs=1):
        """drive1 over several processes at once; traces come back in the order of the scripts."""
        if procs > 1 and len(scripts) > 1:
            n = min(procs, len(scripts))
            with cf.ThreadPoolExecutor(n) as ex:
                parts = list(ex.map(lambda i: self.drive1(binary, scripts[i::n], env, timeout, cwd, args, restarts), range(n)))
            traces = [parts[i % n][i // n] for i in range(len(scripts))]
        else:
            traces = self.drive1(binary, scripts, env, timeout, cwd, args, restarts)
        traces = [t for t in traces if t]
        self.log("drove %d scenarios" % len(traces))
        if scripts and not traces:
            raise CheckError("driver timed out (%s)" % binary)
        return traces

    def drive1(self, binary, scripts, env=None, timeout=300, cwd=None, args=(), restarts=12):
        """Runs scripts through a driver; returns the recorded traces. A scenario that kills the driver
        yields a trace with a single 'crash' event; one that hangs was recorded by the driver itself."""
        traces, todo = [], list(scripts)
        tries = 0
        # enough crashes, hangs and waits to judge by: what is not run by then is left out
        budget = time.time() + min(timeout, 200 if self.quick else 2400)
        while todo:
            tries += 1
            if tries > restarts or traces and time.time() > budget:
                return traces + [None] * len(todo)
            si, so = self.path("scripts.ndjson"), self.path("traces.ndjson")
            with open(si, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            d = cwd or self.path("cwd")
            os.makedirs(d, exist_ok=True)
            e = dict(os.environ)
            e["GOTRACEBACK"] = "single"
            e.update(env or {})
            se = self.path("stderr")
            with open(se, "w") as ef:
                p = subprocess.Popen([binary, si, so] + list(args), cwd=d, env=e, stdout=ef, stderr=ef,
                                     start_new_session=True)
                try:
                    rc = p.wait(timeout=max(5, budget - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = None
                finally:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            got = []
            if os.path.exists(so):
                with open(so) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            traces += got
            todo = todo[len(got):]
            if rc == 0:
                if todo:
                    raise CheckError("driver stopped early")
                break
            if rc is None:
                self.log("driver out of time: %d scenarios not run" % len(todo))
                self.cov["not_run"] = self.cov.get("not_run", 0) + len(todo)
                return traces + [None] * len(todo)
            if rc == 7 and got:
                continue
            tail = open(se, errors="replace").read()[-3000:]
            if rc == 4 or not os.path.exists(so):
                raise CheckError("driver failed rc=%s: %s" % (rc, tail))
            if rc == -9:
                raise CheckError("driver was killed: %s" % tail)
            # the code under test took the process down
            full = open(se, errors="replace").read()
            m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE)$", full, re.M)
            if not m:
                raise CheckError("driver died rc=%s without a Go panic: %s" % (rc, tail))
            i = full.find(m.group(0))
            t = {"id": todo[0]["id"], "ev": [{"op": "crash", "why": full[i:i + 1500]}]}
            t.update({k: v for k, v in (todo[0].get("hdr") or {}).items() if k not in t})
            traces.append(t)
            todo = todo[1:]
        return traces

    # ------------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, args=(), env=None, workers="1", heap="2g", timeout=600):
        """spec: path relative to specs/. Returns TLC's output."""
        p = os.path.join(VERIF, "specs", spec)
        cfgp = self.path("model.cfg")
        open(cfgp, "w").write(cfg)
        meta = self.path("meta")
        sd = os.path.join(VERIF, "specs")
        lib = os.pathsep.join([os.path.join(sd, x) for x in sorted(os.listdir(sd))])
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2" if workers == "1" else "-XX:ParallelGCThreads=4",
               "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + lib, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp] + list(args) + [p]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % spec)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def model_check(self, spec, cfg, workers=None, heap="4g", timeout=600, expect_coverage=()):
        """Exhaustive design check; a failure here is an error of the specification, never a violation."""
        rc, out = self.tlc(spec, cfg, workers=workers or str(NCPU), heap=heap, timeout=timeout,
                           args=["-coverage", "1"] if expect_coverage else [])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or "No error has been found" not in out or not m:
            raise CheckError("design model %s: TLC rc=%s\n%s" % (spec, rc, trim(out)))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        for act in expect_coverage:
            c = re.findall(r"^<%s .*>: (\d+):(\d+)" % re.escape(act), out, re.M)
            if not c or all(int(b) == 0 for _, b in c):
                raise CheckError("design model %s: action %s never taken" % (spec, act))
        self.log("design model %s: %d states, %d transitions" % (spec, dist, gen))
        self.cov.setdefault("design_models", []).append({"spec": spec, "states": dist, "transitions": gen})
        return out

    def generate(self, spec, cfg, num=None, depth=None, seed=None, timeout=300, heap="2g", workers="1"):
        """Scripts printed by a generator specification (simulation when num is given, else breadth first)."""
        args = ["-deadlock"]
        if num:
            args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)]
        rc, out = self.tlc(spec, cfg, args=args, timeout=timeout, heap=heap, workers=workers)
        res = []
        for line in out.splitlines():
            if line.startswith('"VFGEN '):
                res.append(json.loads(json.loads(line)[6:]))
        if num:
            # the simulator prints every candidate for the last step: keep one script per behaviour
            seen, keep = set(), []
            for ops in res:
                k = hashlib.sha1(json.dumps(ops[:-1]).encode()).digest()
                if k not in seen:
                    seen.add(k)
                    keep.append(ops)
            res = keep
        if not res or "Error:" in out:
            raise CheckError("generator %s gave nothing: rc=%s\n%s" % (spec, rc, trim(out)))
        self.log("generated %d scripts from %s" % (len(res), spec))
        return res

    def validate(self, spec, traces, consts="", name="", shards=None, timeout=600, heap="3g", extra_cfg="", queue_dfs=False):
        """Validates recorded traces against a trace specification. Returns [(trace, pos)] of the unexplained ones."""
        if not traces:
            raise CheckError("no traces to validate for %s" % spec)
        total = sum(len(t["ev"]) for t in traces)
        n = shards or max(1, min(NCPU, total // 1500 + 1, len(traces)))
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
        parts, load = [[] for _ in range(n)], [0] * n
        for i in order:
            j = load.index(min(load))
            parts[j].append(i)
            load[j] += len(traces[i]["ev"]) + 1
        cfg = "SPECIFICATION Spec\n%s\n%s\nCONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n" % (
            ("CONSTANTS\n" + consts) if consts else "", extra_cfg)

        def one(part):
            f = self.path("tr.ndjson")
            with open(f, "w") as fh:
                for i in part:
                    fh.write(json.dumps(traces[i]) + "\n")
            env = {"VF_TRACES": f}
            if queue_dfs:
                env["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
            rc, out = self.tlc(spec, cfg, env=env, heap=heap, timeout=timeout)
            m = re.search(r'<<"VFDONE", (\d+), (\d+)>>', out)
            g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
            if not m or not g or int(m.group(1)) != len(part) or "Error:" in out:
                raise CheckError("trace validation %s: TLC rc=%s\n%s" % (spec, rc, trim(out)))
            rej = [(part[int(a) - 1], int(b)) for a, b in re.findall(r'<<"VFREJECT", (\d+), (\d+)>>', out)]
            if len(rej) != int(m.group(2)):
                raise CheckError("trace validation %s: report incomplete" % spec)
            os.remove(f)
            return rej, int(g[-1][1].replace(",", "")), int(g[-1][0].replace(",", ""))

        rejected = []
        with cf.ThreadPoolExecutor(n) as ex:
            for rej, dist, gen in ex.map(one, parts):
                rejected += rej
                self.states += dist
                self.transitions += gen
        self.traces_ok += len(traces) - len(rejected)
        self.events += total
        self.cov.setdefault("validated", []).append(
            {"spec": spec, "name": name, "traces": len(traces), "events": total, "rejected": len(rejected)})
        self.log("validated %d traces (%d events) against %s%s: %d rejected" % (
            len(traces), total, spec, " [%s]" % name if name else "", len(rejected)))
        return [(traces[i], p) for i, p in sorted(rejected)]

    def judge(self, binary, scripts, traces, spec, describe, consts="", tries=1, drive=None, copies=1, **kw):
        """Validates traces; a rejected one counts when its scenario is rejected again in a fresh run
        (for races: in one of several runs of several copies)."""
        rej = self.validate(spec, traces, consts, **kw)
        for t in traces[:1] + traces[-1:]:
            self.sample({"id": t["id"], "first_events": t["ev"][:6], "events": len(t["ev"])})
        if not rej:
            return
        for t, p in rej[:3]:
            self.log("rejected: %s at %d: %s" % (t["id"], p, json.dumps(at(t, p, 2))[:1500]))
        byid = {s["id"]: s for s in scripts}
        first = [dict(byid[t["id"]], id="%s~%d" % (t["id"], c)) if copies > 1 else byid[t["id"]]
                 for t, _ in rej[:12] for c in range(copies)]
        for i in range(tries):
            again = drive(first) if drive else self.drive(binary, first)
            rej2 = self.validate(spec, again, consts, name="reproduction", **kw)
            for t, p in rej2[:3]:
                self.report(describe(at(t, p, 1)["unexplained"]),
                            {"trace": t, "pos": p, "at": at(t, p), "script": byid[t["id"].split("~")[0]]})
            if rej2:
                return
        # not shown twice: noted, not reported
        self.log("UNREPRODUCED: %d rejected traces" % len(rej))
        if os.environ.get("VERIF_EVID"):
            json.dump([{"trace": t, "pos": p, "at": at(t, p)} for t, p in rej[:3]], open(os.path.join(EVID, self.prop + ".unreproduced.json"), "w"))
        self.cov.setdefault("unreproduced", []).extend({"id": t["id"], "at": at(t, p, 1)} for t, p in rej[:3])

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    # --------------------------------------------------------------- verdict
    def known(self, f):
        """Notes that a listed finding shows on this tree."""
        if f["what"] not in self.findings:
            self.findings.append(f["what"])

    def report(self, what, data):
        """Records a violation of this property, reproduced on the real code."""
        d = EVID
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.violation%d.json" % (self.prop, len(self.violations) + 1))
        json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what, "data": data},
                  open(p, "w"), indent=1, default=str)
        self.violations.append((what, p))
        self.log("VIOLATION: " + (what if len(what) < 700 else what[:700] + " ..."))

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces_ok, "events_validated": self.events,
                                "samples": self.samples}, **self.cov),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.findings:
            ev["coverage"]["known_findings_seen"] = self.findings
        d = EVID
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1, default=str)
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f), flush=True)
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1 if self.violations else 0


def known_findings(prop):
    """Open findings of a property: [(key, text)]."""
    res = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("open", []):
            if f["property"] == prop:
                res.append(f)
    return res


def at(trace, pos, n=4):
    """The end of the explained prefix and the first unexplained event."""
    ev = trace["ev"]
    return {"explained": ev[max(0, pos - 1 - n):pos - 1], "unexplained": ev[pos - 1] if pos - 1 < len(ev) else None}
