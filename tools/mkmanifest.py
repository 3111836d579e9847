#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from manifest_table import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        tech, level, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt checks/{i}.py --tier quick", thorough_cmd=f"python3-vt checks/{i}.py --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import numpy' && command -v gcc nasm fasm dosbox qemu-mipsel >/dev/null", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])
