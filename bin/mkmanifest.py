#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import PROPS, SCENARIOS, NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in PROPS:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built yet")})
        continue
    P = PROPS[p]
    specs = sorted({SCENARIOS[n]["spec"] + ".tla" for n in P["quick"] + P.get("thorough", [])})
    checks.append({
        "property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
        "technique": f"TLA+ specification ({', '.join(specs)}) checked with TLC; every transition TLC generates is replayed into the program and compared",
        "level": P.get("level", "model_checking"),
        "level_note": P.get("note", "Exhaustive for the registered scenarios of the specification (bounded histories from boundary states); "
                      "the code is compared with the specification on every explored transition. Trusts the harness's model of the Solana runtime.")})
json.dump({"version": 1, "setup_cmd": "bin/check --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness crates use the program's public interface (features no-entrypoint, test-elusiv)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
