#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("bounded exhaustive explicit-state exploration of the real code against a reference model, "
        "replayed trace by trace, in two build profiles")
NOTE = ("Every input, operand placement and operation sequence inside the bounds given in DESIGN.md and in the evidence "
        "file is executed on the real code, with and without debug assertions and overflow checks, and judged after every "
        "step. Trusts the reference model (harness/src/model.rs, self-checked on each run) and the compiler; widths, values "
        "and depths outside the bounds are not covered.")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE,
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks: the explorer uses baa's public API only. Replay a violation with: python3 check.py --replay <path>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
