#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check registry and notes below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
reg, notes = {}, {}
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if f.endswith(".py") and not f.startswith("_"):
        m = importlib.import_module("checks." + f[:-3])
        reg.update(m.REGISTRY)
        notes.update(getattr(m, "NOTES", {}))
TECH = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into the real code; recorded histories validated by TLC"
NOTE = ("The specification's own properties are checked exhaustively on bounded instances; the code is bound to it by replaying "
        "every transition of a bounded state graph plus random deep behaviours, so code paths outside the generated inputs are not covered.")
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in reg:
        t, n = notes.get(p, (TECH, NOTE))
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t or TECH,
                       "level": "model_checking", "level_note": n or NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check is built for this property yet.")})
for p in reg:
    if p not in props:
        print("registry has unknown property", p)
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "build tag verif", "enable": "go build -tags test,verif (vlib.build passes the tags)",
                     "source_commits": ["049d19f", "9427352"]},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
