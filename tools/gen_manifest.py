#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that lib/registry.py knows."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib")); sys.path.insert(0, os.path.join(here, "tools"))
sys.dont_write_bytecode = True
import registry, notes
from gen_properties import PROPS
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in registry.CHECKS:
        n = notes.NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", "TLA+ specification checked with TLC; conformance of the real code by trace validation"),
                       "level": n.get("level", "model_checking"),
                       "level_note": n.get("note", "bounded")})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: sources are rewritten at check time through go build -overlay (harness/instr), in scratch directories."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
