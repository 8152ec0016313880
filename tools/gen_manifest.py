#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C22": "accuracy of transcendental functions and window coefficients is a statement about real-number approximation; "
             "TLA+/TLC and Quint/Apalache have no real or floating-point arithmetic to state or decide it in (see DESIGN.md)"}
notes = json.load(open(V + "/tools/manifest_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes and os.path.exists("%s/checks/%s.py" % (V, i.lower())) and i not in NA:
        n = notes[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py" % i.lower(),
                           thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                           technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
