"""Writes /verif/MANIFEST.json: claimed = the properties with a check in checks/ listed in CLAIM."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
CLAIM = {}
NA = {}
exec(open(V + "/tools/claims.py").read())
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 khv/facts.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis of type-checked MIR; nothing of keyhive is executed by a check. See DESIGN.md. No hooks are needed in /repo; the commits there are fix: commits (known_findings.json)."}
for i in ids:
    if i in CLAIM and os.path.exists(f"{V}/checks/{i.lower()}.py"):
        tech, note = CLAIM[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no sound static rule for it has been built in this framework")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
