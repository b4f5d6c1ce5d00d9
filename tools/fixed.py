#!/usr/bin/env python3
"""Keeps the 'fixed' entries of known_findings.json in step with the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(root + "/tools/fixed.json"))
p = root + "/known_findings.json"
k = [e for e in json.load(open(p)) if e["status"] != "fixed"]
for prop, commit, what in F:
    k.append({"property": prop, "status": "fixed", "commit": commit, "entry": f"fixed: property={prop} {commit} {what}"})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(e, ensure_ascii=False) for e in k) + "\n]\n")
