#!/usr/bin/env python3
"""addfix.py PID COMMIT WHAT...  — record a repaired defect in known_findings.json (maintenance tool, never run by checks)."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
k = "findings" if "findings" in d else next(k for k, v in d.items() if isinstance(v, list))
pid, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d[k].append(dict(property=pid, status="fixed", commit=commit, key="", what=what,
                 record="fixed: property=%s %s %s" % (pid, commit, what)))
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
