#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PLAN and any(e["tier"] == "q" for e in PLAN[i]):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR of /repo), assertions decided by Z3",
            "level": "model_checking",
            "level_note": "Bounded: every assertion on every path is decided by the solver for all values of the symbolic inputs within the stated bounds (see evidence: harnesses[].bounds); counterexamples and sampled paths are replayed against the natively compiled code. Trusts rustc, Z3, the symbolic executor and the container model.",
        })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in [c["property"] for c in checks]],
    "notes": "No hooks were added to /repo: harnesses use the public API, and the command-line programs are compiled from copies generated from /repo's sources at run time. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
