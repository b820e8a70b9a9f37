#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list of properties below (tools/props/*.py)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note="random cases of bounded size; no proof"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": over.split(), "text": " ".join(text.split())},
                  why_tests_cant=" ".join(why.split()),
                  anchors={"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  technique=technique, note=note))


for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
    exec(open(f).read())
P.sort(key=lambda p: p["id"])
repo = "/repo"
for p in P:
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join(repo, f)), (p["id"], f)
with open(os.path.join(VERIF, "properties.jsonl"), "w") as o:
    for p in P:
        o.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(VERIF, "checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['id']}.py quick",
                       "thorough_cmd": f"python3 checks/{p['id']}.py thorough", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "its check is not written yet"})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as o:
    json.dump({"version": 1, "setup_cmd": "python3 lib/vbuild.py", "checks": checks, "not_applicable": na}, o, indent=1)
    o.write("\n")
print(len(checks), "checks,", len(na), "without")
