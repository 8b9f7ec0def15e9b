"""Sequential components: replay of TLC's state graph into the real code, validation of recorded histories."""
import json, os, re
from vf import *
from conc import check_traces, describe


def _driver(c, drv, race=False):
    p = os.path.join(c.tmp, drv + ("-race" if race else "-seq"))
    return p if os.path.exists(p) else c.go_build("./drv/" + drv, p, race=race)


def _crash(c, r, drv, what):
    """A driver that died: a crash inside the code under test is a violation."""
    if r.returncode == 0:
        return
    if re.search(r"^(panic|fatal error): ", r.stderr, re.M) and "unsafe-risk/utilx" in r.stderr and "out of memory" not in r.stderr:
        c.violation("the code under test crashed (%s): %s" % (what, r.stderr[:1500]), {"driver": drv, "stderr": r.stderr[:6000]})
    if "WARNING: DATA RACE" in r.stderr and "unsafe-risk/utilx" in r.stderr:
        c.violation("separate instances used by separate goroutines race with each other (%s): %s" % (what, r.stderr[:2500]), {"driver": drv, "stderr": r.stderr[:6000]})
    raise Broken("driver %s (%s) exited with %d:\n%s" % (drv, what, r.returncode, r.stderr[-3000:]))


def graph(c, module, consts, drv, label=None, budget=None, walk=200, timeout=600, props="", heap="6g", dead_ok=False, flat=False):
    """TLC enumerates the state graph of <module>; every transition is replayed into the real code."""
    label = label or module
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items()) + props
    r = c.model_check(module + "Graph", cfg, label=label + " graph", timeout=timeout, heap=heap)
    g = os.path.join(c.tmp, label.replace(" ", "_") + ".graph")
    with open(g, "w") as f:
        f.write(r["text"])
    r["text"] = ""
    out = g + ".json"
    b = budget or c.q(6, 60)
    p = c.run([_driver(c, drv), "-mode", "replay", "-graph", g, "-out", out, "-seed", str(c.seed), "-tier", c.tier, "-budget", str(b),
               "-walk", str(walk)] + (["-flat"] if flat else []), timeout=b * 6 + 120)
    _crash(c, p, drv, label)
    with open(out) as f:
        d = json.load(f)
    os.remove(g)
    c.log("replay %s: %d states, %d transitions (%d driven), all sequences up to length %d, %d paths, %d steps" %
          (label, d["states"], d["edges"], d["covered"], d["depth"], d["paths"], d["steps"]))
    if d["dead"] and not dead_ok:
        raise Broken("%s: %d states of the printed graph have no transitions" % (label, d["dead"]))
    c.cov["traces_validated_against_impl"] += d["paths"]
    c.cov.setdefault("replay", {})[label] = {k: d[k] for k in ("states", "edges", "covered", "depth", "paths", "steps")}
    if d["covered"] < d["edges"] and not d["fail"]:
        c.log("%s: only %d of %d transitions driven within the time limit" % (label, d["covered"], d["edges"]))
    if d["fail"]:
        h = d["fail"]["history"]
        s = "\n".join("   %2d %s" % (i + 1, json.dumps(e, sort_keys=True)[:500]) for i, e in enumerate(h))
        c.violation("%s: the real code's last result is none the specification allows (%s); %d such paths\n%s\n   allowed: %s" %
                    (label, d["fail"]["how"], d["nfail"], s, (d["fail"]["expected"] or ["it returns"])[:6]),
                    {"module": module, "consts": consts, "failure": d["fail"]})
    c.sample({"graph": label, "states": d["states"], "transitions": d["edges"]})
    return d


def record(c, module, consts, drv, gen, n, budget=None, timeout=None, chunk=4000, extra=None, known=None, race=False, huge=0, hugegen="huge"):
    """Random histories of the real code, each decided by TLC."""
    out = os.path.join(c.tmp, "%s-%s.ndjson" % (drv, gen))
    extra = dict(extra or {}, GORACE="exitcode=66 halt_on_error=1")
    b = budget or c.q(20, 200)
    p = c.run([_driver(c, drv, race), "-mode", "record", "-gen", gen, "-n", str(n), "-out", out, "-seed", str(c.seed), "-tier", c.tier,
               "-budget", str(b), "-huge", str(huge), "-hugegen", hugegen], timeout=b * 3 + 120, extra_env=extra)
    _crash(c, p, drv, gen)
    with open(out) as f:
        traces = [json.loads(x) for x in f]
    os.remove(out)
    if not traces:
        raise Broken("driver %s recorded nothing" % drv)
    cfg = "SPECIFICATION TraceSpec\nCONSTRAINT Constr\nCHECK_DEADLOCK FALSE\n"
    if consts:
        cfg += "CONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in consts.items())
    for t in traces:
        for e in t["ev"]:
            e.pop("r", None) if e["k"] != "op" else None
    c.cov.setdefault("recorded", {})[gen] = {"histories": len(traces), "events": sum(len(t["ev"]) for t in traces)}
    check_traces(c, module + "Trace", cfg, traces, known=known)
