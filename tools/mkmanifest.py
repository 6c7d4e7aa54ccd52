#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the check modules and properties.jsonl"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {}
out = {"version": 1,
       "setup_cmd": "python3-vt -m vf.selftest",
       "checks": [], "not_applicable": [],
       "notes": "Every check imports cmakelang from /repo's working tree (pure Python: there is nothing to build). "
                "Replay a reported case with: python3-vt -m vf.run <id> --replay <file>."}
for line in open(os.path.join(ROOT, "properties.jsonl")):
  pid = json.loads(line)["id"]
  path = os.path.join(ROOT, "vf", "checks", pid.lower() + ".py")
  if not os.path.exists(path):
    out["not_applicable"].append({"property": pid, "reason": NA.get(pid, "no check built yet")})
    continue
  mod = importlib.import_module("vf.checks." + pid.lower())
  assert mod.ID == pid
  out["checks"].append({
      "property": pid,
      "quick_cmd": "python3-vt -m vf.run %s" % pid,
      "thorough_cmd": "python3-vt -m vf.run %s --tier thorough" % pid,
      "technique": mod.TECHNIQUE, "level": mod.LEVEL, "level_note": mod.LEVEL_NOTE})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
  json.dump(out, f, indent=1)
  f.write("\n")
print(len(out["checks"]), "checks")
