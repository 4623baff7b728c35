#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import os, sys, json
B = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, B); V = os.path.dirname(B)
import props, checks
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.PROPS]
ch = []
for i in ids:
    c = checks.CHECKS.get(i)
    if not c: continue
    ch.append(dict(property=i, quick_cmd="python3 bin/runner.py %s quick" % i, thorough_cmd="python3 bin/runner.py %s thorough" % i,
                   technique=c.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it"),
                   level=c["level"], level_note=c.get("note", "Every recorded history is decided by TLC against the specification; bounded to the generated histories.")))
na = [dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in checks.CHECKS]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=ch, not_applicable=na,
         notes="TLA+ specifications in spec/, drivers in harness/, runner in bin/. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
