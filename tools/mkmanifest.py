#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and plan.py
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import plan
NOTE = "Bounded: every path and every value of the symbolic inputs within the bounds of the runs listed in plan.py (and in the evidence's 'runs'); nothing is claimed beyond them. "
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in plan.PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM bitcode of /repo's sources with an SMT solver (Z3); counterexamples replayed natively",
            "level": plan.LEVEL, "level_note": NOTE + "Quick: " + "; ".join(r.get("name", r["entry"]) + ": " + r["bounds"] for r in plan.PLAN[i] if r.get("tier", "quick") == "quick") + "."})
    else: na.append({"property": i, "reason": plan.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine B=../build/engine", "checks": checks, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
