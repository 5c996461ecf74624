#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from the property list and the registered rules."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
from check import registry
from notes import NOTES, NA

reg = registry()
checks, na = [], []
for x in props.P:
    i = x["id"]
    if i in reg:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"python3 engine/check.py {i}", thorough_cmd=f"python3 engine/check.py {i} --thorough", evidence_file=f"evidence/{i}.json", technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd="python3 engine/check.py setup", checks=checks, not_applicable=na,
         notes="All checks are static analyses of the MIR that rustc produces from /repo's current source on every run; nothing of /repo is executed. No hooks are needed in /repo.")
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
