#!/usr/bin/env python3
# Writes MANIFEST.json from sim/plan.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + "/sim")
from plan import PLAN, NA
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in PLAN:
        P = PLAN[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: " + P["technique"], "level": P["level"], "level_note": P["note"]})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
M = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: every seam is the library's own (memory functions, random function, parameter text, byte buffers, FILE*) or a link-time wrapper (malloc, fopen, exit, clock, rand). Replay a violation with: python3 check.py --replay FILE"}
json.dump(M, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
