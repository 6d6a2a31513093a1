#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p)
    if not c:
        na.append(dict(property=p, reason="no check has been built yet"))
        continue
    checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=c.get("technique", "explicit-state and stateless model checking of the real code against a reference model"),
                       level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="KTL_MC (no hooks were needed; the harnesses interpose malloc and provide their own allocators)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles harnesses against /repo/include as it is and explores the real code; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
