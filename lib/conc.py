"""Concurrency checks: run a driver in its modes, collect distinct histories, validate them against a trace spec."""
import json, os, re, subprocess, time
from vf import *


def collect(c, drv, pkgs, aspect="", budget=None, modes=("ctl", "native", "race"), maxhist=400, shards=None, race_budget=None, skip_msg="", own_race=False):
    """Returns (traces, stats). Every trace is {"cfg","ev","how"}."""
    shards = shards or c.cores
    budget = budget or c.q(8, 90)
    jobs, traces, stats = [], [], {}
    ov = None
    if "ctl" in modes:
        ov = c.instrument(pkgs)
        if ov is None:
            c.log("the code cannot be put under the scheduler; native histories only")
            c.assumptions.append("this tree's sources could not be rewritten for the deterministic scheduler; only native histories were checked")
    bins = {}
    if ov:
        b = c.go_build("./drv/" + drv, os.path.join(c.tmp, drv + "-ctl"), overlay=ov, must=False)
        if b:
            bins["ctl"] = b
    if "native" in modes:
        bins["native"] = c.go_build("./drv/" + drv, os.path.join(c.tmp, drv + "-nat"))
    if "race" in modes:
        b = c.go_build("./drv/" + drv, os.path.join(c.tmp, drv + "-race"), race=True, must=False)
        if b:
            bins["race"] = b
    e = env()
    for mode in ("ctl", "native", "race"):
        if mode not in bins:
            continue
        if mode != "ctl" and "ctl" in stats and stats["ctl"]["hangs"] + stats["ctl"]["panics"] > 0:
            c.log("%s runs skipped: the controlled runs already hang or panic" % mode)
            continue
        n = shards if mode == "ctl" else max(1, shards // 4)
        bud = budget if mode == "ctl" else (race_budget or budget / 3)
        procs = []
        for s in range(n):
            out = os.path.join(c.tmp, "%s-%s-%d.ndjson" % (drv, mode, s))
            st = out + ".stat"
            errf = open(out + ".err", "w+")
            ee = dict(e)
            if mode == "ctl":
                ee["GOMAXPROCS"] = "2"
            ee["GORACE"] = "exitcode=66 halt_on_error=1"
            ee["GOTRACEBACK"] = "all"
            p = subprocess.Popen([bins[mode], "-mode", mode, "-seed", str(c.seed), "-tier", c.tier, "-aspect", aspect,
                                  "-shard", str(s), "-shards", str(n), "-budget", str(bud), "-maxhist", str(maxhist),
                                  "-out", out, "-stat", st], env=ee, stdout=subprocess.DEVNULL, stderr=errf)
            procs.append((p, out, st, errf, s))
        end = time.time() + bud * 3 + 120
        agg = {"runs": 0, "points": 0, "hangs": 0, "panics": 0, "dfs_full": [], "dfs_partial": []}
        for p, out, st, errf, s in procs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                c.deferred.append("driver %s (%s) did not finish" % (drv, mode))
                continue
            errf.seek(0)
            err = errf.read()
            errf.close()
            if rc != 0:
                kind = None
                if rc == 66 and "DATA RACE" in err and ("unsafe-risk/utilx" in err or own_race):
                    kind = "race"
                elif re.search(r"^(panic|fatal error): ", err, re.M) and "unsafe-risk/utilx" in err and "out of memory" not in err:
                    kind = "panic"
                if kind is None:
                    # the other executions may still show a violation; if they do not, there is no verdict
                    c.deferred.append("driver %s (%s) exited with %d:\n%s" % (drv, mode, rc, err[-3000:]))
                    continue
                traces.append({"cfg": {}, "ev": [{"k": kind, "t": 0, "now": 0, "why": err[:4000]}], "how": "%s shard %d" % (mode, s)})
                continue
            with open(out) as f:
                for line in f:
                    traces.append(json.loads(line))
            with open(st) as f:
                d = json.load(f)
            for k in ("runs", "points", "hangs", "panics"):
                agg[k] += d[k]
            agg["dfs_full"] += d["dfs_full"] or []
            agg["dfs_partial"] += d["dfs_partial"] or []
        stats[mode] = agg
        c.log("%s: %d executions, %d switch points, %d hangs, %d panics" % (mode, agg["runs"], agg["points"], agg["hangs"], agg["panics"]))
    # the same history may come from several scenarios and modes
    seen, uniq = set(), []
    for t in traces:
        k = json.dumps([t["cfg"], [{a: b for a, b in ev.items() if a != "why"} for ev in t["ev"]]], sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    for name, k in (("executions", "runs"), ("switch_points", "points")):
        have = c.cov.setdefault(name, {})
        for m in stats:
            have[m] = have.get(m, 0) + stats[m][k]
    if "ctl" in stats:
        c.cov["exhausted_within_bound"] = c.cov.get("exhausted_within_bound", []) + stats["ctl"]["dfs_full"][:40]
        c.cov["not_exhausted"] = c.cov.get("not_exhausted", []) + stats["ctl"]["dfs_partial"][:40]
    c.cov["distinct_histories"] = c.cov.get("distinct_histories", 0) + len(uniq)
    return uniq, stats


def describe(t, n):
    ev = [{a: b for a, b in e.items()} for e in t["ev"]]
    s = "scenario: %s\n cfg %s\n" % (t.get("how"), json.dumps(t["cfg"]))
    for i, e in enumerate(ev):
        s += " %s%2d %s\n" % ("-> " if i == n else "   ", i + 1, json.dumps(e, sort_keys=True)[:600])
    return s


def check_traces(c, module, cfg, traces, known=None, files=None, strict=None, others=()):
    """Validate; report the first rejected history that is not a known finding.
    others: the relaxed specifications of the module's other properties.  A history that the full specification
    rejects although each relaxed one accepts it breaks no other property by itself, so it is reported here."""
    blame = {}
    # a process that died has no configuration of its own; its only event is no step of any specification
    full = [t["cfg"] for t in traces if t["cfg"]]
    for t in traces:
        if not t["cfg"] and full:
            t["cfg"] = full[0]
    if strict:
        # every behaviour of the full specification is one of the relaxed specification of a single property:
        # only histories the full specification rejects need the (slower) relaxed one
        bad = c.validate(module, strict, traces, files=files)
        if bad:
            c.log("%d histories are rejected by the full specification; deciding them for this property alone" % len(bad))
            bad = sorted(bad, key=lambda i: len(traces[i]["ev"]))[:250]
            again = c.validate(module, cfg, [traces[i] for i in bad], files=files)
            own = [bad[i] for i in again]
            if others and not own:
                rest = bad
                for o in others:
                    no = set(c.validate(module, o, [traces[i] for i in rest], files=files))
                    rest = [i for n, i in enumerate(rest) if n not in no]
                    if not rest:
                        break
                own = rest
                blame = {i: strict for i in rest}
            bad = own
    else:
        bad = c.validate(module, cfg, traces, files=files)
    for t in traces[:2]:
        c.sample({"how": t.get("how"), "cfg": t["cfg"], "events": t["ev"][:30]})
    rest = []
    for i in bad:
        k = known(traces[i]) if known else None
        if k:
            c.known_hit.append(k)
        else:
            rest.append(i)
    if rest:
        i = min(rest, key=lambda i: len(traces[i]["ev"]))
        cfg = blame.get(i, cfg)
        n = c.prefix_len(module, cfg, traces[i], files=files)
        c.violation("%d of %d histories of the real code are not behaviours of %s; shortest:\n%s" %
                    (len(rest), len(traces), module, describe(traces[i], n)),
                    {"module": module, "cfg": cfg, "trace": traces[i], "explained_prefix": n})


TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Constr\nCHECK_DEADLOCK FALSE\n"
