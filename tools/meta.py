#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append((d, technique, note, level))
NA = []
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for d, tech, note, level in P:
    checks.append(dict(property=d["id"], quick_cmd="./check.sh " + d["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + d["id"],
                       technique=tech, level=level, level_note=note, evidence_file="evidence/%s.json" % d["id"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA, notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
