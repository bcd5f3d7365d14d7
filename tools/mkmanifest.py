"""Regenerates /verif/MANIFEST.json from the list of checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = open(os.path.join(V, "harness/ofv/checks.py")).read()
have = set(re.findall(r"^@check\ndef (C\d\d)\(", src, re.M))
NOTES = {}
exec(open(os.path.join(V, "tools/notes.py")).read())
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        tech, note = NOTES.get(i, NOTES["default"])
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                            "thorough_cmd": "bin/check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
m["notes"] = "TLA+ specifications in spec/, checked with TLC; behaviours replayed on the code in /repo by harness/ofv; see DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
