#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Run by hand after changing the list of claims."""
import json
NA = {"N01": "A pure function of one argument: no schedule, time, I/O, fault or second party for it to depend on, and the repository's own tests sweep it; the encodings are only exercised indirectly by C27."}
import sys
skip = set(sys.argv[1:])
checks, na = [], []
NOTE = {
}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    if i in skip:
        na.append({"property": i, "reason": "check not finished yet"}); continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh check {i} quick",
        "thorough_cmd": f"./run.sh check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "level": "exploration",
        "level_note": "Seeded random search over operation histories, message delays, duplications and reorderings, clock jumps, forged and stale prices, mid-transaction aborts and fee exhaustion; real blueprints on the real engine, compared step by step with a reference model and with state invariants. Finds violations, does not prove absence." + NOTE.get(i, ""),
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, executable reference model, minimised replay)",
    })
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the Scrypto engine interface, replaced in /verif/vendor/scrypto (host build). See DESIGN.md."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
