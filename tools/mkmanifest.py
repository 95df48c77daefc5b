#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
AI = "abstract interpretation of SSA with typestate monitors (zone domain, loops to fixpoint)"
T = json.load(open(V + "/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = T["claims"].get(i)
    if c:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c[0].replace("AI:", AI),
            "level": "other",
            "level_note": c[1],
        })
    else:
        na.append({"property": i, "reason": T["not_applicable"].get(i, "no sound check built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: analyzer/ loads /repo's current source (types, SSA) on every run. No hooks are added to /repo; its commits are repairs (fix:). Known findings and repairs are in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
