#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cs, na = [], []
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=checks.NA.get(p["id"], "check not built yet")))
        continue
    cs.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique="bounded symbolic execution of the compiled code (LLVM IR), assertions decided by Z3, counterexamples replayed natively",
                   level="model_checking", level_note="Every input within these bounds, nothing outside them: " + c["bounds"] + (" Outside: " + c["outside"] if c.get("outside") else "")))
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=cs, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(cs), "checks", len(na), "not applicable")
