#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess
SEQ = "bounded exhaustive exploration of operation histories on the real code (explicit-state, replay-based), compared with a reference model after every step"
FAULT = "bounded exhaustive exploration of operation histories on the real code with a panic injected at every point where user code runs (fault injection at every destructor, conversion and held guard), compared with a reference model after every step"
CONC = "stateless model checking of the real code: all schedules of small multi-threaded scenarios up to a preemption bound under a controlled lock implementation"
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
import sys
claimed = sys.argv[1].split(',') if len(sys.argv) > 1 else [p['id'] for p in props]
checks = []
for p in props:
    i = p['id']
    if i not in claimed: continue
    conc = i in ('C20', 'C21', 'C22', 'C23')
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": CONC if conc else FAULT if i == "C25" else SEQ,
        "level": "model_checking",
        "level_note": ("Every schedule of the listed scenarios (2-3 threads, 1-3 calls each) up to the stated number of preemptions, on the real library code built from /repo; trusts the stand-in for parking_lot (same state machine, checked against the real one), lock acquisitions and call boundaries as scheduling points, and the reference model."
                       if conc else
                       "Every history of the stated alphabets up to the stated bounds (ids, types, groups, depth; see DESIGN.md), run on the real library code built from /repo and compared with the reference model in every state; merged jobs trust that states with equal fingerprints behave alike, unmerged jobs do not. Nothing is claimed beyond the bounds."),
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": p['id'], "reason": "check not built yet"} for p in props if p['id'] not in claimed],
    "notes": "No hooks are needed in /repo: the harness crate depends on /repo by path and replaces only parking_lot (shim/) through [patch.crates-io]. known-findings.txt lists defects that were found: fixed ones and the ones recorded without repair.",
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
