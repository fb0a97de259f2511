#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 /verif/check.py run %s --tier quick" % i, thorough_cmd="python3 /verif/check.py run %s --tier thorough" % i,
                       evidence_file="/verif/evidence/%s.json" % i, technique=p["technique"], level=p.get("level", "exploration"), level_note=p["level_note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 /verif/check.py selfcheck", checks=checks, not_applicable=na,
         notes="Every check builds the library, parser and client from /repo's working tree with its own ninja file under /verif/build (git-ignored) and runs generated cases against an oracle; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
