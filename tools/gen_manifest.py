#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
meta = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        m = meta.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py --tier quick" % i,
            thorough_cmd="python3 checks/%s.py --tier thorough" % i,
            technique=m.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code and recorded traces validated by TLC"),
            level=m.get("level", "model_checking"),
            level_note=m.get("note", "exhaustive over the stated bounds of the specification; the implementation is bound by replay of every generated behaviour and by TLC validation of recorded traces"),
            evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=meta.get(i, {}).get("na", "not claimed yet: its specification and conformance check are not built")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    hooks=dict(guard="FITORIA_VERIF_HOOKS", enable="no hooks are needed: the checks use the public headers of /repo only", source_commits=[]),
    notes="See DESIGN.md. Known and repaired defects: known_findings.txt."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
