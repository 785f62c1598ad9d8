"""Regenerate properties.jsonl and MANIFEST.json from sa/catalog.py and the rules present."""

import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.catalog import PROPS, NA, NA_REASON  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "rules", i.lower() + ".py")):
        m = importlib.import_module("sa.rules." + i.lower()).META
        checks.append({"property": i, "quick_cmd": f"python3 -m sa.main {i} --tier quick",
                       "thorough_cmd": f"python3 -m sa.main {i} --tier thorough",
                       "technique": m["technique"], "level": m["level"],
                       "level_note": m.get("note", "sound over the paths the value-flow graph resolves; obligations it cannot decide "
                                          "are reported as undecided in the evidence and never alarmed on")})
    else:
        na.append({"property": i, "reason": "no static check registered yet"})
for p in NA:
    na.append({"property": p["id"], "reason": NA_REASON[p["id"]]})
man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
