#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",
            evidence_file=f"evidence/{i}.json", technique=c.get("technique", "bounded-exhaustive explicit enumeration of the real code's inputs, configurations and histories against a reference model"),
            level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction in this session; not yet claimed")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
