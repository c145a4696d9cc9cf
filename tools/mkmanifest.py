#!/usr/bin/env python3
"""MANIFEST.json from engine/ef/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
from ef import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 engine/check.py " + i, "thorough_cmd": "python3 engine/check.py %s --thorough" % i, "technique": props.PROPS[i]["technique"], "level": "other",
           "level_note": props.PROPS[i].get("note", props.NOTE)} for i in ids if i in props.PROPS]
na = [{"property": i, "reason": props.NA.get(i, "no check built yet")} for i in ids if i not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na, "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
