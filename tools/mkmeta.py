"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing; the results are committed)."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import NOT_APPLICABLE, PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert len(re.findall(r"[.!?](?:\s|$)", p["statement"])) <= 3, (p["id"], p["statement"])
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                                     "observe_at": p["at"], "hook_needed": None}}
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks in /repo: every monitor observes the public API, the file system, a local HTTP server or the process from outside. run.sh <id> --replay FILE repeats one reported case."}
for p in PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(V, "checks", p["id"] + ".py")), p["id"]
    man["checks"].append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
                          "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
