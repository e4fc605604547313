#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the job table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import jobs
checks, na = [], []
NA = getattr(jobs, "NOT_APPLICABLE", {})
for l in open(ROOT + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    s = jobs.SPECS.get(pid)
    if not s:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
        continue
    checks.append({
        "property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "symbolic execution of the LLVM IR of /repo/src, assertions decided by Z3; counterexamples replayed natively under AddressSanitizer",
        "level": "model_checking",
        "level_note": "Holds for all values within: " + s["bounds"] + (". Outside: " + s["outside"] if s.get("outside") else "")
        + ". Trusts clang/LLVM, Z3, the executor's models of libc/libstdc++.so and of the socket layer; sampled paths are re-run natively on every run.",
    })
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "One driver (tools/check.py) for all checks; job table in tools/jobs.py; executor in engine/; harnesses in harness/. No hooks in /repo are needed."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
