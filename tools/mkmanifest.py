#!/usr/bin/env python3
"""Writes MANIFEST.json from the job tables."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import jobs
NA = {
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        P = jobs.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py --property %s --tier quick" % i, "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the LLVM IR of the real code over symbolic input bytes, decided by byte-domain propagation and z3 (bit-vectors), exhaustiveness of the explored paths proved by z3, counterexamples replayed natively",
                       "level": "model_checking",
                       "level_note": "Bounded: " + P["bounds"] + ". Nothing is claimed beyond those bounds. Trusts the engine's encoding of LLVM IR (validated on every run by replaying sampled models natively), the reference model in /verif/harness, the stubs listed in the evidence, and z3."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "engine/: the symbolic executor; harness/: property harnesses, reference models and job tables (bounds); run.py: the driver; known_findings.json: findings. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
