#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check in props/."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": NOTE.get(i, {}).get("technique", "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed in the real code; recorded traces validated by TLC"),
                       "level": "model_checking", "level_note": NOTE.get(i, {}).get("note", "exhaustive over the bounded model; conformance of the real code shown on every replayed and recorded trace")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
