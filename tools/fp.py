#!/usr/bin/env python3
"""Regenerate verus/fp.json: the shape (loops, closures, calls) of every function under contract on the reference tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verusrun as V
out = {}
for f in sorted(os.listdir(os.path.join(V.VDIR, "verus"))):
    if f.endswith(".rs") and not f.startswith(("shim_", "spec_")):
        u = f[:-3]
        _, fns, _ = V.build(u)
        out[u] = {x["key"]: x["fp"] for x in fns}
json.dump(out, open(os.path.join(V.VDIR, "verus", "fp.json"), "w"), indent=1, sort_keys=True)
