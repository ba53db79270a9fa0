#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
HOOK = "7ab85df"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in NOTES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n[0], "level": n[2] if len(n) > 2 else "exploration", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q lib checks check.py >/dev/null; true",
     "hooks": {"guard": "HUMANLEAGUE_MONITOR", "enable": "checks compile /repo/src with -DHUMANLEAGUE_MONITOR (lib/build.py: kinds mon and san)", "source_commits": [full]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
