#!/usr/bin/env python3
"""Engine self-test: library features used in selftest/lib.cpp must be executable symbolically (no unsupported calls, no errors)."""
import sys, os, json, re, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import check
check_h = "selftest.cpp"; log = []
exe = check.build_engine(); linked = check.build_bitcode([check_h], log)
print(*log, sep="\n") if log else None
ents = re.findall(r'extern "C" void (\w+)', open(H + "/harness/selftest.cpp").read()); bad = 0
for e in ents:
    if len(sys.argv) > 1 and e not in sys.argv[1:]: continue
    with tempfile.TemporaryDirectory() as t:
        subprocess.run([exe, linked[check_h], "--entry", e, "--out", t + "/o", "--tmp", t, "--time", "60", "--workers", "4", "--frontier", "16", "--seed", "1", "--steps", "40000000"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        d = json.load(open(t + "/o")); ok = d["complete"] and d["reach"].get("end") and not d["errors"]; bad += not ok
        print(e, "ok" if ok else "BAD", d["paths"], d["unsupported_msgs"], [(x["msg"], x["where"]) for x in d["errors"]][:3])
sys.exit(bad > 0)
