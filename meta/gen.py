"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the entries of meta/props.py (run after editing them)."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
from props import PROPS
out, checks, na = [], [], []
for p in PROPS:
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("observe", []), "hook_needed": None}})
    assert len(p["title"]) <= 80, p["id"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        c = "python3 vlib/check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c, "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
m = {"version": 1, "setup_cmd": "python3 vlib/extract.py", "checks": checks, "not_applicable": na,
     "notes": "Every check is a static analysis of the MIR that rustc (pinned nightly, driver in /verif/driver) produces from /repo's working tree; nothing of /repo is executed. "
              "No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
