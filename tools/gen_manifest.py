#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, registry
ids = [json.loads(l)["id"] for l in open(os.path.join(core.VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                 "technique": registry.CHECKS[p][2], "level": registry.CHECKS[p][0], "level_note": registry.CHECKS[p][3]}
                for p in ids if p in registry.CHECKS],
     "not_applicable": [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in registry.CHECKS],
     "notes": "Specifications in spec/ (TLA+, checked with TLC). Known findings: known-findings.txt. No hooks in /repo."}
assert set(registry.CHECKS) <= set(ids), set(registry.CHECKS) - set(ids)
with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
