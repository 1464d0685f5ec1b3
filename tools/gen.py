"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
M = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in PROPS if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo are needed: the environment (random sources, thread scheduler, execution cut points, callbacks, map server) is substituted from outside. "
              "Replay a violation with: python3 run.py <id> --replay <path>."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(M["checks"]), "checks")
