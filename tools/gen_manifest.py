#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 bin/vk.py %s --tier quick" % i, thorough_cmd="python3 bin/vk.py %s --tier thorough" % i,
            technique=c.get("technique", "bounded symbolic execution of the real code (Kani codegen of /repo's crates, CBMC, SAT) with native replay of counterexamples"),
            level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -m py_compile bin/vk.py bin/checks.py", checks=checks, not_applicable=na)
if os.path.exists(os.path.join(R, "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(R, "hooks.json")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
