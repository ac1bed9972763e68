#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
import registry, notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=registry.NOT_APPLICABLE.get(p["id"], "No check is built for it yet.")))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
        technique=c["technique"], level=c["level"], level_note=c["note"] or notes.N[p["id"]]))
m = dict(version=1, setup_cmd="python3 setup_checks.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks are used: everything is observed through public interfaces and intercepted library calls.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
