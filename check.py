#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- see DESIGN.md."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

registry = {}
for f in sorted(os.listdir(os.path.join(vlib.VERIF, "checks"))):
    if f.endswith(".py") and not f.startswith("_"):
        registry.update(importlib.import_module("checks." + f[:-3]).REGISTRY)

if __name__ == "__main__":
    vlib.main(registry)
