"""Writes MANIFEST.json from mc/registry.py and properties.jsonl."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mc.registry import CHECKS

PENDING = "the check of this property is not built yet"
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid not in CHECKS:
        na.append(dict(property=pid, reason=PENDING))
        continue
    module, technique, note = CHECKS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd="./check.py %s" % pid,
        thorough_cmd="./check.py %s --thorough" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=technique, level="model_checking", level_note=note))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./check.py --selftest",
                   checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not")
