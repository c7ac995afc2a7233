#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
chk = json.load(open(os.path.join(R, "checks.json")))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in chk:
        na.append({"property": i, "reason": NA.get(i, "the monitor for this property is not finished yet")})
        continue
    c = chk[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 vcheck_run.py %s" % i,
        "thorough_cmd": "python3 vcheck_run.py %s --tier thorough" % i,
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"] + " Holds for what was executed (randomised exploration with a fixed number of cases per "
                      "seed), not proved for all inputs; trusts clang's sanitizers and the oracle code in harness/.",
    })
json.dump({"version": 1, "setup_cmd": "python3 vcheck_run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all monitors observe the library through its public API and sanitizer "
                    "instrumentation added by /verif/CMakeLists.txt. Known findings: known_findings.json."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
