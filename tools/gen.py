"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the sources here."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties_src import P
try:
    from manifest_src import CHECKS, NOT_APPLICABLE, NOTES
except ImportError:
    CHECKS, NOT_APPLICABLE, NOTES = {}, {}, ""
root = os.path.dirname(here)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    i = x["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --thorough",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"],
                           level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
