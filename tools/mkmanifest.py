#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the claimed checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/pylib")
sys.path.insert(0, V + "/bin")
import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.NOTES:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification: TLC model checking, behaviour replay and trace validation of the real code",
                       "level": "model_checking", "level_note": registry.NOTES[i]})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/selftest.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every observation is made through public headers",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
