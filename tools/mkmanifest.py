#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
NA = {
    "N01": "a pure function of the source text with no schedule, clock, fault or other party in it: token sequences decide it, not simulation (macro use is exercised incidentally by C15 and C17 programs)",
    "N02": "a pure function of the source text: whether a diagnostic exists for each invalid construct has no schedule, fault or interleaving to simulate",
    "N03": "depends on the loaders of real kernels (Linux versions, macOS), which are outside the simulator; the simulated loader is a stub and cannot stand for them",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + c.technique, "level": c.level, "level_note": c.note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is built for it yet")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is the system-call boundary of the processes under simulation. Known findings and repairs: known_findings.json. Replay a violation: python3 check.py <id> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
