#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per checks/cNN.py, the remaining properties under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": NOTE[i][0], "level": "model_checking", "level_note": NOTE[i][1]})
    else:
        na.append({"property": i, "reason": NOTE.get(i, ["", "no check built yet"])[1]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verif", "enable": "none needed: the checks use exported API only; harness files are laid over /repo by 'go build -overlay' (lib/vf.py)", "source_commits": []},
     "notes": "Specifications in TLA+ (specs/), checked with TLC; behaviours generated by TLC are replayed through the real code, recorded runs are checked against the specification. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
