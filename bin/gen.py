#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py and checks.py."""
import json, os, subprocess
import checks, properties

V = checks.VERIF
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in properties.PROPERTIES:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ck, na = [], []
for p in properties.PROPERTIES:
    c = checks.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "no check yet")))
        continue
    ck.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s --tier quick" % p["id"],
                   thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 bin/setup.py", hooks=dict(guard="verif (reserved; no hook is needed, harnesses enter through go test -overlay)", enable="nothing to enable", source_commits=[]),
         checks=ck, not_applicable=na,
         notes="Fixes of genuine defects are the fix: commits of /repo, listed in known_findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
