#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(root + "/props/*.go"))
notes = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if not re.search(r"^func C%s_" % p[1:], src, re.M):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "technique": "symbolic execution of the Go SSA of the real code; z3 decides branches and assertions; models replayed natively",
        "level": "model_checking",
        "level_note": notes.get(p, "bounded; see DESIGN.md"),
    })
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
