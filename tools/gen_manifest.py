#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py (run from /verif)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
TECH = "deterministic simulation with fault injection: seeded search over %s, replayable and minimised"
PURE = ("pure function of its operands: no schedule, clock, I/O, allocation failure, randomness or history enters it, so there is "
        "nothing for a simulator to decide (that the operation is free of hidden state under every interleaving and history is C10-C13; "
        "that it fails cleanly is C17/C18)")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = PROPS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH % c["over"], "level": "exploration",
                       "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": c["reason"] if c else PURE if p["id"] >= "C20" else "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is at the compiler (ThreadSanitizer instrumentation with our own runtime), at the C library's symbols, or at stream and allocator arguments. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
