#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import specs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        b = "; ".join("%s: %s" % (h["name"], h.get("bounds", "")) for h in s["harnesses"])
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM IR of the real code; every branch, address and assertion decided by Z3 over all inputs within bounds; counterexamples replayed natively",
            "level": s.get("level", "model_checking"),
            "level_note": "Bounded: holds for every value within the bounds, nothing is claimed outside them. " + b + ". Trusts clang 18's lowering to IR, the executor in engine/ (its path witnesses are replayed natively on every run) and Z3."})
    else:
        na.append({"property": i, "reason": specs.NA.get(i, "no check has been built for this property yet")})
json.dump({"version": 1, "setup_cmd": "make -s -C engine", "checks": checks, "not_applicable": na,
  "notes": "No hooks: /repo is not instrumented. One check at a time uses all cores. See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
