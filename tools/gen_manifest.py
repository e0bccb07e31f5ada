#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from gen_properties import P
from claims import CLAIMS, NA

ids = [x["id"] for x in P]
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not decided yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check analyses the unmodified headers. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
