#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                       "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": "its monitor is still being built"})
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py registry.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: monitors intercept calls between object files at link time (-Wl,--wrap) and read the library's own structures", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
