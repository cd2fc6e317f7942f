#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (check.py builds /verif/harness, which replaces github.com/rmera/boo with /repo, with this tag)", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ checked with TLC. check.py <ID> <tier> rebuilds the harness from /repo's working tree, model checks the specification of the property (spec/MC*.tla), runs the real code and has TLC accept or reject each recorded run (spec/*Trace.tla)."}
for i in ids:
    if i in props.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": props.TECH[i], "level": "model_checking", "level_note": props.NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "the check is still being built")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
