#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/*/spec.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "harness", p["id"], "spec.json")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    s = json.load(open(f))
    cmd = "python3 bin/check.py " + p["id"]
    san = s.get("sanitizer", "address")
    technique = s.get("technique") or ("real code under randomized workloads with " + ("ThreadSanitizer" if san == "thread" else "AddressSanitizer, UBSan and libstdc++ assertions") + ", reference-model monitors")
    note = "Every monitored answer is compared with an independent reference computation on the inputs that were generated; nothing is claimed about inputs outside the generators' bounds."
    if s.get("assumptions"):
        note += " Assumes: " + "; ".join(s["assumptions"]) + "."
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": technique, "level": s.get("level", "exploration"), "level_note": note})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors observe the public interface. known-findings.txt lists repaired defects (fixed:) and accepted ones (known:)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
