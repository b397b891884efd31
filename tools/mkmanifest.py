#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = ("TLC steps the TLA+ state machine (spec/Pico*.tla) through every scenario of the generator module and checks its invariants and frame "
       "property; every complete behaviour is replayed on the real library (ASAN build of the current tree) and each outcome and tensor, written or not, is compared. "
       "Trusts TLC, the operator definitions of spec/PicoLayers.tla, the compiler and the replay driver. Bounded: enumerated small geometries plus seeded random and large ones.")
TECH = "TLA+ specification model-checked with TLC; every behaviour TLC generates is replayed on the real code (conformance)"
checks = {}
for i in range(1, 18):
    checks["C%02d" % i] = (TECH, NUM)
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": checks[p][0], "level": "model_checking", "level_note": checks[p][1]}
                for p in ids if p in checks],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in checks],
     "notes": "All checks: python3 check.py <id>. No hooks in /repo are needed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
