#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from tools/seeds_*.py.

    python3 tools/mkseed.py [--check] [ID ...]

Works in a scratch copy of /repo under /tmp; /repo itself is not touched."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "5ca42db"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", HOME="/root",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
DEMO = '''#!/bin/bash
# exit 0: the property holds for this history; run with cwd at the repository root
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
EOF
timeout -k 5 %(limit)d go test -vet=off -count=1 %(flags)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(cwd):
    pk = run("go list -e ./... | grep -v /poolx/gopoolx$", cwd, shell=True).stdout.split()
    res = {}
    for args in (pk, ["-cpu", "1", "./poolx/gopoolx"]):
        out = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m"] + args, cwd).stdout
        for l in out.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Test") and e.get("Action") in ("pass", "fail"):
                k = e["Package"] + "/" + e["Test"]
                res[k] = res.get(k, True) and e["Action"] == "pass"
    return {k for k, v in res.items() if v}
def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds_*.py"))):
        seeds += runpy.run_path(f)["SEEDS"]
    assert len({s["id"] for s in seeds}) == len(seeds)
    tmp = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    bad = 0
    try:
        wt = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        for s in seeds:
            if want and s["id"] not in want: continue
            loose = s.get("loose")      # touches lines that are not original: only for trying out the checks
            d = os.path.join("/tmp/loose" if loose else SEEDED, s["id"])
            run(["git", "checkout", "-q", "--", "."], wt)
            msg = []
            for file, old, new in s["edits"]:
                p = os.path.join(wt, file)
                t = open(p).read()
                if t.count(old) != 1: msg.append(f"{file}: {t.count(old)} matches of {old!r}"); continue
                open(p, "w").write(t.replace(old, new))
            diff = run(["git", "diff"], wt).stdout
            # every removed line has to be an original one
            orig = 0
            fn = None; ln = 0
            for l in diff.splitlines():
                if l.startswith("--- a/"):
                    fn = l[6:]
                    bl = run(["git", "blame", "-s", "HEAD", "--", fn], wt).stdout.splitlines()
                elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
                elif l.startswith("---") or l.startswith("+++"): pass
                elif l.startswith("-"):
                    if BASE in bl[ln-1].split()[0]: orig += 1
                    elif not loose: msg.append("not original: " + l)
                    ln += 1
                elif l.startswith("+"): pass
                elif l.startswith(" "): ln += 1
            if not orig and not loose: msg.append("no original line changed")
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            demo = d + "/demo.sh"
            open(demo, "w").write(s.get("demo_sh") or DEMO % dict(pkg=s["pkg"], limit=s.get("limit", 120), flags=s.get("flags", "")))
            os.chmod(demo, 0o755)
            if s.get("demo"): open(d + "/demo_test.go", "w").write(s["demo"].lstrip("\n"))
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            if not msg:
                b = run(["go", "build", "./..."], wt)
                if b.returncode: msg.append("build: " + b.stderr[-400:])
                lost = set() if loose else stable - tests(wt)
                if lost: msg.append(f"tests lost: {sorted(lost)}")
                for k in range(s.get("tries", 2)):
                    r = run(["bash", demo], wt)
                    if r.returncode == 0: msg.append("demo passes with the patch"); break
                if "[build failed]" in r.stdout or "[setup failed]" in r.stdout: msg.append("demo does not build " + r.stdout[-500:] + r.stderr[-500:])
                fail = r.stdout[-300:]
                run(["git", "checkout", "-q", "--", "."], wt)
                for k in range(s.get("tries", 2)):
                    r = run(["bash", demo], wt)
                    if r.returncode: msg.append("demo fails without the patch: " + r.stdout[-700:] + r.stderr[-700:]); break
            print(s["id"], "OK" if not msg else "BAD", *msg, sep="\n   " if msg else " ", flush=True)
            bad += bool(msg)
    finally:
        shutil.rmtree(tmp)
    sys.exit(bool(bad))
main()
