"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/spec.py and the checks present."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import spec

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in spec.P:
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = list(p["observe"])
        anchors["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in spec.P:
    i = p["id"]
    if p["na"]:
        na.append(dict(property=i, reason=p["na"]))
    elif os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check imports /repo/src unmodified. See DESIGN.md."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
