"""Write MANIFEST.json from harness modules present and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    if os.path.exists(V + "/harness/%s.py" % i.lower()) and "note" in n and not n.get("not_applicable"):
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=n.get("technique", "TLA+ specification checked with TLC; behaviours replayed into bilby"),
                           level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=n.get("not_applicable", "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
