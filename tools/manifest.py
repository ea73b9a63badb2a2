#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS, NOT_CLAIMED, TECHNIQUE, NOTE
import properties
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for p in properties.P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", TECHNIQUE),
                           level=c.get("level", "model_checking"), level_note=c.get("note", "") + " " + NOTE))
    else:
        na.append(dict(property=i, reason=NOT_CLAIMED.get(i, "not claimed: no check has been built for it")))
commits = [l for l in os.popen("git -C /repo log --format='%h %s'").read().splitlines() if "hook" in l.split(" ", 1)[1][:6]]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="cfg(snapspec)", enable="RUSTFLAGS=\"--cfg snapspec\" (tools/setup.sh and tools/check.py build the harness with it)", source_commits=[l.split()[0] for l in commits]),
         notes="Specifications are TLA+ in /verif/spec, checked and replayed with TLC; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
