#!/usr/bin/env python3
"""Checks that the tools are there and builds the extractor and the falsifier once."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run(["verus", "--version"], check=True)
for d, fl in (("extract", ""), ("falsify", "--cfg bip324_verif -A unexpected_cfgs")):
    subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(V, ".build", d)],
                   cwd=os.path.join(V, d), env=dict(os.environ, RUSTFLAGS=fl), check=True)
