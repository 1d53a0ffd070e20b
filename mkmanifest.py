#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
claimed = subprocess.check_output([sys.executable, os.path.join(V, "check.py"), "--list"], text=True).split()
NA = {}
NOTE = {}
exec(open(os.path.join(V, "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in claimed:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=NOTE.get(p, DEFAULT)[0], level="model_checking", level_note=NOTE.get(p, DEFAULT)[1]))
    else: na.append(dict(property=p, reason=NA.get(p, "machinery not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
