#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; behaviours replayed into the real library, recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": c.get("note") or ("scenarios generated by TLC from the specification (%s) are performed by %s on the library built "
                "from /repo; every recorded answer is checked by TLC against spec/%s.tla"
                % (", ".join(g["cfg"] for g in c["gen"]), c["driver"], c["trace"])),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1,
     "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "F2C_VERIF_UNUSED", "enable": "no hooks: the checks build /repo/src unmodified and observe it through its public API", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
