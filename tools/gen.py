#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props/*.py."""
import json, os, glob, runpy
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
P, CHECKS, NA = [], [], []
def prop(id, title, statement, over, text, why, files, mechanism, pkg, note, technique="property-based testing", state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert not any(p["id"] == id for p in P), id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(text.split())}, "why_tests_cant": " ".join(why.split()), "anchors": a})
    CHECKS.append({"property": id, "quick_cmd": f"VERIF_TIER=quick ./check.sh {pkg} {id}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pkg} {id}", "technique": technique, "level": "exploration", "level_note": " ".join(note.split())})
for f in sorted(glob.glob(here + "/props/*.py")):
    exec(compile(open(f).read(), f, "exec"))
P.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"])
for p in P:
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
open(root + "/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg oak_verif", "enable": "RUSTFLAGS='--cfg oak_verif' (env.sh), used by every harness build", "source_commits": ["1e4e04f"]},
     "checks": CHECKS, "not_applicable": NA,
     "notes": "check.sh builds the harness package against /repo's working tree and runs one check; see DESIGN.md. Replay a violation with: ./check.sh <package> <property> --replay <file>"}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
