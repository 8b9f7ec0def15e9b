"""Properties of the commands: C36."""
import json, shutil, tempfile
from seq import *
from conc import TRACE_CFG


def C36(c):
    trees = os.path.join(c.tmp, "trees")
    n = 0
    with open(trees, "w") as f:
        for names in c.q([["a", "vendor"], ["b", ".git"]], [["a", "vendor"], ["b", ".git"], ["a", "b", "vendor"]]):
            s = "{" + ", ".join('"%s"' % x for x in names) + "}"
            r = c.model_check("WalkMC", "SPECIFICATION Spec\nINVARIANT Once\nCONSTANTS\n Names = %s\n Harmful = FALSE\n Show = TRUE\nPROPERTY Abstract\nCHECK_DEADLOCK FALSE\n" % s,
                              label="WalkMC " + " ".join(names), timeout=900)
            for l in r["text"].splitlines():
                if l.startswith('"{'):
                    f.write(json.loads(l) + "\n")
                    n += 1
    c.model_check("WalkMC", "SPECIFICATION Spec\nINVARIANT Once\nCONSTANTS\n Names = %s\n Harmful = TRUE\n Show = FALSE\nPROPERTY Abstract\nCHECK_DEADLOCK FALSE\n" % c.q('{"a", "b"}', '{"a", "b", ".git"}'),
                  label="WalkMC with faults", timeout=1500)
    if not n:
        raise Broken("no trees were enumerated")
    scratch = tempfile.mkdtemp(prefix="vwalk")
    try:
        os.chmod(scratch, 0o755)
        stub = os.path.join(scratch, "bin")
        os.mkdir(stub)
        c.go_build("./drv/walkstub", os.path.join(stub, "go"))
        c.go_build("./drv/walk", os.path.join(c.tmp, "walk"))
        shutil.copy(os.path.join(stub, "go"), os.path.join(stub, "true"))
        bins = []
        for t, a in (("autotidy", "mod,tidy"), ("autoupdate", "get,-u")):
            c.go_build("github.com/unsafe-risk/utilx/cmd/" + t, os.path.join(scratch, t))
            bins.append(os.path.join(scratch, t) + ":" + a)
        for p in [stub] + [os.path.join(d, x) for d in (scratch, stub) for x in os.listdir(d)]:
            os.chmod(p, 0o755)
        out = os.path.join(c.tmp, "walks")
        b = c.q(40, 300)
        r = c.run([os.path.join(c.tmp, "walk"), "-trees", trees, "-n", str(c.q(400, 4000)), "-seed", str(c.seed), "-out", out, "-scratch", scratch, "-stub", stub,
                   "-bins", ";".join(bins), "-budget", str(b)], timeout=b + 200)
        if r.returncode:
            raise Broken("driver walk: %s" % r.stderr[-2000:])
        if r.stderr:
            c.log(r.stderr.strip())
        with open(out) as f:
            traces = [json.loads(x) for x in f]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if len(traces) < 100:
        raise Broken("only %d walks" % len(traces))
    c.log("%d walks (%d enumerated trees)" % (len(traces), n))
    check_traces(c, "WalkTrace", TRACE_CFG, traces)
