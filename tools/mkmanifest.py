#!/usr/bin/env python3
"""MANIFEST.json from the registry: every property with proof parts is claimed, the others are listed with their reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from proofs import claims
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
from proofs import registry
checks, na = [], []
for i in ids:
    if registry.PARTS.get(i) and i in claims.NOTE:
        checks.append(dict(property=i, quick_cmd="python3-vt /verif/check.py %s" % i, thorough_cmd="python3-vt /verif/check.py %s thorough" % i,
                           technique=claims.TECH.get(i, claims.TECHNIQUE), level="proof", level_note=claims.NOTE[i]))
    else:
        na.append(dict(property=i, reason=claims.NA.get(i, "not decided yet: the contracts for these functions are still being written")))
m = dict(version=1, setup_cmd="python3-vt /verif/tools/setup.py", checks=checks, not_applicable=na,
         notes="Contract-based deductive verification of the real C++ code through LLVM IR; see DESIGN.md. No hooks: /repo carries only fix: commits.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
