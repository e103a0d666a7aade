#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import config

NOTES = {}
TECH = {}
exec(open(V + "/tools/notes.py").read())
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in config.PROPERTIES:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": TECH.get(i, TECH[""]), "level": "exploration", "level_note": NOTES.get(i, "") + NOTES[""]})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not written yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of mockey only", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
