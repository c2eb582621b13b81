#!/usr/bin/env python3
"""Writes spec/locals.json (the locals of each function under contract when its hints were written),
spec/uses.json (the identifiers in each of its loops) and spec/shapes.json (a hash of the tokens of each function)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vgen
out = os.path.join(V, "spec", "locals.json")
if os.path.exists(out):
    os.unlink(out)
_, rep, specs = vgen.generate("/repo", sys.argv[1], "/tmp/mklocals")
json.dump({k: v for k, v in sorted(rep["locals"].items()) if k in specs.fns and v}, open(out, "w"), indent=0)
json.dump(dict(sorted(rep["shapes"].items())), open(os.path.join(V, "spec", "shapes.json"), "w"), indent=0)
json.dump({k: v for k, v in sorted(rep["uses"].items()) if k in specs.fns and v}, open(os.path.join(V, "spec", "uses.json"), "w"), indent=0)
