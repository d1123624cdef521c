#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOT = {
 "C31": "pure functions of one number: nothing for a schedule or fault to act on, so simulation would only be input sampling; besides, the decimal library whose rounding decides the last place is not available here",
}
PENDING = {}
CLAIMED = os.environ.get("CLAIMED", "").split() or [p for p in ALL if p not in NOT]
NOTE = {
 "C01": "independent model of the derivation scheme; assumes btcec group law, SHA-2/HMAC",
 "C05": "independent frame checker decides what damaged text may still spell; 24-bit checksum collisions excused only when found by it",
 "C08": "panics, runaway loops and process deaths are detected; memory use is not decided",
 "C11": "sequentially consistent interleavings at statement granularity; no weak-memory effects",
 "C16": "an independent decoder lists every correct reading of a word list",
 "C17": "the host page, syscall/js and its callbacks are simulated; the service itself is the real code compiled for the simulator",
}
ECO = "the absent decimal dependency is replaced by an exact big-number stand-in; everything else is the real code"
for c in ("C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C30", "C33"):
    NOTE[c] = ECO
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults against a reference model",
        "level": "exploration",
        "level_note": "No violation in the seeded runs counted in the evidence file; one seed is one exactly repeatable run. " + (NOTE.get(p, "Trusts the reference model in go/ref and the scenario's oracle.")) + ".",
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks instrument a copy of the working tree (go/instrument)", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT.get(p) or PENDING.get(p, "no check yet")} for p in ALL if p not in CLAIMED],
     "notes": "Checks are seeded with VERIF_SEED; VERIF_TIER=thorough explores more runs with longer plans. A violation's replay file is run with ./check.sh PROP --replay FILE."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
