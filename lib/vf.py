"""Common machinery of the checks: builds from /repo's working tree, TLC runs, trace validation, evidence."""
import atexit, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
UTILX = "github.com/unsafe-risk/utilx/"
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off")
    e.pop("GOEXPERIMENT", None)
    return e


def tail(text, n=1800):
    """The informative end of TLC's output."""
    t = "\n".join(x for x in text.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting", '<<"A"')))
    e = t.find("Error: ")
    return (t[e:e + n] + "\n...\n" if 0 <= e < len(t) - 2 * n else "") + t[-n:]


class Broken(Exception):
    """The check itself could not do its work (error exit)."""


class TlcTimeout(Broken):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "specs": {}}
        self.assumptions = []
        self.level = "model_checking"
        self.known = self._known()
        self.known_hit = []
        self.deferred = []
        self.cores = os.cpu_count() or 4

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def _known(self):
        try:
            with open(os.path.join(ROOT, "known_findings.json")) as f:
                return [k for k in json.load(f)["findings"] if k["property"] == self.pid and k["status"] == "known"]
        except FileNotFoundError:
            return []

    # ---- processes -------------------------------------------------------------------------------------
    def run(self, cmd, timeout=600, cwd=None, extra_env=None, inp=None):
        e = env()
        if extra_env:
            e.update(extra_env)
        try:
            return subprocess.run(cmd, cwd=cwd, env=e, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise Broken("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- building the real code ------------------------------------------------------------------------
    def instrument(self, pkgs):
        """Overlay that puts the packages' synchronisation under the scheduler, or None if they cannot be rewritten."""
        for fine in ("true", "false"):
            d = tempfile.mkdtemp(prefix="ov", dir=self.tmp)
            r = self.run(["go", "run", "./instr", "-out", d, "-fine=" + fine, "-skip", UTILX + "osx/closex"] +
                         [UTILX + p for p in pkgs], cwd=HARN, timeout=300)
            if r.returncode == 0:
                ov = os.path.join(d, "overlay.json")
                b = self.run(["go", "build", "-buildvcs=false", "-overlay", ov] + [UTILX + p for p in pkgs], cwd=HARN, timeout=300)
                if b.returncode == 0:
                    return ov
                self.log("instrumented build failed (fine=%s): %s" % (fine, b.stderr[:400]))
            else:
                self.log("instrumentation failed (fine=%s): %s" % (fine, r.stderr[:400]))
        return None

    def go_build(self, pkg, out, overlay=None, race=False, must=True):
        cmd = ["go", "build", "-buildvcs=false", "-o", out]
        if overlay:
            cmd += ["-overlay", overlay]
        if race:
            cmd += ["-race"]
        r = self.run(cmd + [pkg], cwd=HARN, timeout=600)
        if r.returncode != 0:
            if must:
                raise Broken("building %s failed:\n%s" % (pkg, r.stderr[:3000]))
            self.log("building %s (overlay=%s) failed: %s" % (pkg, bool(overlay), r.stderr[:600]))
            return None
        return out

    # ---- TLC -------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, files=None, workers=None, timeout=600, deadlock=False, heap="6g", simulate=None, name=None, cap=None):
        """Runs TLC in a scratch copy of spec/.  Returns dict(ok, states, distinct, prints, text, violated)."""
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR + ":" + CM, "tlc2.TLC",
               "-workers", str(workers or self.cores), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += simulate
        cmd.append(module + ".tla")
        t = time.time()
        try:
            r = self.run(cmd, cwd=d, timeout=timeout)
        except Broken as b:
            shutil.rmtree(d, ignore_errors=True)
            raise TlcTimeout(str(b))
        o = r.stdout
        res = {"text": o, "rc": r.returncode, "dir": d, "wall": time.time() - t}
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", o)
        res["generated"], res["distinct"] = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        res["ok"] = r.returncode == 0 and ("No error has been found" in o or bool(simulate))
        res["violated"] = re.findall(r"(?:Invariant|Temporal property|property|Action property) (\S+) (?:is|was) violated", o)
        return res

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of a specification alone; a failure means the specification is broken."""
        label = kw.pop("label", module)
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise Broken("TLC did not accept %s:\n%s" % (module, tail(r["text"])))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["specs"][label] = {"distinct_states": r["distinct"], "transitions": r["generated"], "seconds": round(r["wall"], 1)}
        self.log("TLC %s: %d states, %d transitions, %.1fs" % (label, r["distinct"], r["generated"], r["wall"]))
        shutil.rmtree(r["dir"], ignore_errors=True)
        return r

    # ---- trace validation ------------------------------------------------------------------------------
    def validate(self, module, cfg, traces, timeout=None, files=None, chunk=4000):
        """Each trace must be a behaviour of the trace specification.  Returns the rejected indices."""
        timeout = timeout or self.q(200, 1500)
        order = sorted(range(len(traces)), key=lambda i: len(traces[i]["ev"]))
        work = [(order[b:b + chunk], timeout) for b in range(0, len(order), chunk)]
        bad = []
        while work:
            idx, tmo = work.pop(0)
            try:
                bad += self._validate(module, cfg, [traces[i] for i in idx], idx, tmo, files)
            except TlcTimeout:
                # some history has too many explanations: decide the shorter ones first
                if bad:
                    self.cov["undecided_traces"] = self.cov.get("undecided_traces", 0) + len(idx)
                    break
                if len(idx) == 1:
                    self.log("TLC %s: a history of %d events could not be decided" % (module, len(traces[idx[0]]["ev"])))
                    self.cov["undecided_traces"] = self.cov.get("undecided_traces", 0) + 1
                    if self.cov["undecided_traces"] > 3:
                        raise Broken("trace validation %s did not finish" % module)
                    continue
                h = (len(idx) + 1) // 2
                work = [(idx[:h], max(20, tmo / 2)), (idx[h:], max(20, tmo / 2))] + work
        return bad

    def _validate(self, module, cfg, part, idx, timeout, files):
        nd = "".join(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}, separators=(",", ":")) + "\n" for t in part)
        fs = dict(files or {})
        fs["traces.ndjson"] = nd
        r = self.tlc(module, cfg, files=fs, timeout=timeout)
        acc = set(int(x) for x in re.findall(r'<<"A", (\d+)>>', r["text"]))
        # TLC must have finished the whole exploration
        if not r["ok"] or "Model checking completed" not in r["text"]:
            raise Broken("trace validation %s did not finish:\n%s" % (module, tail(r["text"])))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(part)
        s = self.cov["specs"].setdefault(module, {"distinct_states": 0, "transitions": 0, "traces": 0})
        s["distinct_states"] += r["distinct"]
        s["transitions"] += r["generated"]
        s["traces"] = s.get("traces", 0) + len(part)
        self.log("TLC %s: %d traces, %d states, %.1fs" % (module, len(part), r["distinct"], r["wall"]))
        shutil.rmtree(r["dir"], ignore_errors=True)
        return [idx[i] for i in range(len(part)) if i + 1 not in acc]

    def prefix_len(self, module, cfg, trace, files=None):
        """Length of the longest prefix of the trace the specification explains."""
        ev = trace["ev"]
        lo, hi = 0, len(ev)
        pre = [dict(trace, ev=ev[:n]) for n in range(0, len(ev) + 1)]
        keep = (self.cov["traces_validated_against_impl"], self.cov["states"], self.cov["transitions"])
        bad = self.validate(module, cfg, pre, files=files)
        self.cov["traces_validated_against_impl"], self.cov["states"], self.cov["transitions"] = keep
        return (min(bad) - 1) if bad else len(ev)

    # ---- results ---------------------------------------------------------------------------------------
    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            t = json.dumps(x, default=str)  # huge histories are cut: the evidence file has to stay small
            self.cov["samples"].append(x if len(t) < 8000 else t[:4000] + " ... (%d characters)" % len(t))

    def evidence(self, violations=0):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(rec, f, indent=1)
        os.replace(p + ".tmp", p)

    def violation(self, what, replay):
        """replay: any JSON value that reproduces the failure."""
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, "replay-%s-%s.json" % (self.pid, h))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1, default=str)
        self.log("VIOLATION:", what[:2000])
        raise Violation(what, p)


def main(pid, fn):
    c = Check(pid)
    try:
        for f in glob.glob(os.path.join(ROOT, "evidence", "replay-%s-*.json" % pid)):
            os.remove(f)
        fn(c)
        if c.deferred:
            raise Broken(c.deferred[0])
        for k in sorted(set(c.known_hit)):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        c.evidence(0)
        c.log("held: %d states, %d transitions, %d traces" % (c.cov["states"], c.cov["transitions"], c.cov["traces_validated_against_impl"]))
        return 0
    except Violation as v:
        c.evidence(1)
        print(v.what[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        return 1
    except Broken as b:
        print("check error: %s" % b, file=sys.stderr, flush=True)
        return 2
