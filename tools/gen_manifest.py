#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/bounds.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from bounds import PROPS
T = "symbolic execution of the crate's compiler IR (own executor, engine/), every branch and assertion decided by Z3; counterexamples replayed natively"
N = ("Bounded and exhaustive within the bounds: all values of the symbolic bytes at once, on the code as compiled from /repo, including the libraries it calls. "
     "Trusts the executor (validated on every run by native replay of explored paths), Z3 (thorough: cross-checked with cvc5), and what the evidence lists under assumptions. Bounds: ")
checks = []
for p in sorted(PROPS):
    b = PROPS[p]["bounds"]["quick"]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": T, "level": "model_checking", "level_note": N + b})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "Repairs of genuine defects in /repo are the commits whose message starts with fix:, listed in known_findings.json. There are no hooks: the harness (harness/) uses the public API, and printing, parsing, macros, typed attributes and process execution are all reached through it."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
