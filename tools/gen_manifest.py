#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks compiled into the harness."""
import json, os, subprocess
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.check_output([verif + "/.build/mc", "-list"], text=True).split()
props = [json.loads(l) for l in open(verif + "/properties.jsonl")]
NOTE = {
    "default": "Explicit-state exploration of the real code: every choice (operation, argument, random draw, key order, "
               "fault) is enumerated within the bounds stated per scenario in the evidence, and every step is judged by an "
               "independent model or oracle. Nothing is claimed outside the bounds.",
    "C22": "Stateless exploration of thread interleavings: the sources are instrumented at build time with scheduling points, "
           "and every schedule within the preemption bound is run on the real code and compared with the sequential result.",
    "C23": "The real binary is run for every combination of command line and server answer in the bounded set, with the "
           "transport replaced at build time; every printed transaction is judged by an independent script and fee oracle.",
}
checks = []
for p in props:
    if p["id"] not in have:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh " + p["id"],
        "thorough_cmd": "./run.sh " + p["id"],
        "technique": "bounded exhaustive state exploration of the implementation against an independent model",
        "level": "model_checking",
        "level_note": NOTE.get(p["id"], NOTE["default"]),
        "evidence_file": "evidence/%s.json" % p["id"],
    })
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks,
     "not_applicable": [],
     "notes": "run.sh builds the harness from the current /repo tree with build-time overlays (no files are added to /repo). "
              "VERIF_TIER=thorough widens the bounds. ./run.sh --replay FILE replays a violation."}
json.dump(m, open(verif + "/MANIFEST.json", "w"), indent=1)
