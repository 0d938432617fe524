#!/usr/bin/env python3
"""replay.py FILE: runs a reported counterexample on the natively built code."""
import json, os, sys
import check
r = json.load(open(sys.argv[1]))
g = check.PROPS[r["property"]]["group"]
d = os.path.join(check.V, "build", g)
os.makedirs(d, exist_ok=True)
p = check.start_native(g, d)
log, _ = p.communicate()
if p.returncode:
    print(log)
    sys.exit(2)
got = check.Native(d, r["property"]).one(r["entry"], r["input"])
print(r["entry"], r["input"], "->", got or "fine")
sys.exit(1 if got else 0)
