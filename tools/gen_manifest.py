#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property known to the harness."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set(re.findall(r'id: "(C\d\d)"', "".join(open(os.path.join(root, "harness/src", f)).read() for f in os.listdir(os.path.join(root, "harness/src")) if f.endswith(".rs"))))
TECH = "runtime monitoring: generated hostile workload on the real library, observed against an independent reference (f64 geometry / physics law / model state) at every step; internal panics, borrow errors and overflow checks act as sanitizers"
NOTE = "Randomised exploration, seeded by VERIF_SEED; reports how many cases each monitor decided and fails (exit 3) if it observed too little."
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}", "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "bash run.sh --build", "checks": checks, "not_applicable": [],
     "notes": "One harness binary (harness/) with a path dependency on /repo; run.sh rebuilds it when /repo/src or the harness changed. `bash run.sh --replay FILE` replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
