#!/usr/bin/env python3
# Source of MANIFEST.json. Run: python3 tools/mkmanifest.py
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from config import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for i in ids:
    if i not in PROPS and i not in na:
        na[i] = "no check built yet"
m = dict(
    version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
                 technique=c["technique"], level=c.get("level", "proof"), level_note=c["level_note"]) for p, c in PROPS.items()],
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
    notes="No hooks in /repo: functions are extracted mechanically from the unmodified source on every run, or compiled as they are.",
)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
