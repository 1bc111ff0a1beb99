#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a plan, a reason for every other one."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = {}
NOTE = ("Every step of generated histories of the real library is compared, answer and complete observable state, with what the "
        "TLA+ specification allows; coverage is that of the histories (see the evidence). Trusts TLC, the driver's decoding "
        "and the compiler.")


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in plans.PLANS:
            na.append({"property": i, "reason": PENDING.get(i, "its specification is not finished yet")})
            continue
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": plans.TECHNIQUE.get(i, "TLA+ specification, trace validation of generated histories with TLC"),
                       "level": "model_checking", "level_note": plans.NOTES.get(i, NOTE)})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every check observes the library through its public interface. DESIGN.md describes the method."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
