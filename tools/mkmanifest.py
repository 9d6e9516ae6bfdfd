#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of finished checks and the property list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "tools")]
from mtable import T, PENDING
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                           thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
                           level_note=note))
    else:
        na.append(dict(property=i, reason=PENDING.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 lib/vbuild.py plain asan tsan", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors sit at the StarPU, BLAS and Python boundaries (LD_PRELOAD library native/vmon.cc "
               "and a helper extension native/vcore.cc built against /repo's headers).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
