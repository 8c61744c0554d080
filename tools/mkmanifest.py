#!/usr/bin/env python3
"""writes MANIFEST.json for the properties that have a check"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

SER = ("TLA+ token-stream machine of serialization (SerMachine), model-checked with TLC against declarative wire forms; "
       "recorded calls of the real code checked against the machine by trace validation (TraceSer)")
SERN = ("Exhaustive for the machine over all values up to the bound; every recorded run of the real code (all kinds x widths x "
        "positions, behaviours enumerated by TLC, random deep values) is stepped through the machine call by call. "
        "Trusts the recorder, serde and erased-serde.")
TECH = {p: (SER, SERN) for p in ("C01", "C02", "C03", "C04", "C05", "C06")}
TECH.update(getattr(check, "TECH", {}))
NOT = {}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
    for p in props:
        if p in check.PROPS:
            t, n = TECH[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                                "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                                "technique": t, "level": "model_checking", "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": NOT.get(p, "its check is being built")})
    m["notes"] = "No hooks: everything is observed through the public interface; /repo carries fix: commits only (see known_findings.txt)."
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
