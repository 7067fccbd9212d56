#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (one source for both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, technique=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, na=na, level=level))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

checks, na = [], []
for p in P:
    script = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif not os.path.exists(script):
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
    else:
        c = {"property": p["id"], "quick_cmd": "python3 checks/%s.py --quick" % p["id"].lower(),
             "thorough_cmd": "python3 checks/%s.py --thorough" % p["id"].lower(),
             "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"] or TECH,
             "level": p["level"], "level_note": p["level_note"] or NOTE}
        checks.append(c)
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds what it runs from /repo's working tree into /verif/build (ignored by git) and "
                    "drives the shipped programs themselves; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
