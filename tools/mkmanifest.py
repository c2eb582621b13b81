#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; failing inputs replayed on the real code",
            "level": P.get("level", "proof"),
            "level_note": P.get("note", "Every function of the property's cone is verified against its contract for all inputs; assumed: the dependency contracts in trusted_base and the stated preconditions. A function the extraction cannot bring within Verus' subset is decided by the bounded search and labelled so in the evidence."),
        })
    else:
        na.append({"property": i, "reason": "contracts for this part are not written yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "bip324_verif (a rustc --cfg)",
        "enable": "RUSTFLAGS=\"--cfg bip324_verif -A unexpected_cfgs\"",
        "source_commits": ["48ee6e4", "17f9eae"],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
