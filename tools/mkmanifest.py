"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(ROOT, "tools/notes.json")))
PY = "/opt/pycold-venv/bin/python -B "
m = dict(version=1, setup_cmd=PY + "vlib/build.py rel", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NOTES and os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        n = NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd=PY + "check.py " + i,
                                thorough_cmd="VERIF_TIER=thorough " + PY + "check.py " + i,
                                technique=n["technique"], level="exploration", level_note=n["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOTES.get("_na", {}).get(i, "No check has been built for this property yet.")))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
