#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, check=None, technique="", level="model_checking", note="", na=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors),
                  check=check, technique=technique, level=level, note=note, na=na))

V = "verifiable/"
NOTEST = "The only tests that run reliably here check four facts about bit paths; "
exec(open(os.path.join(R, "tools", "properties.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["prop"]) + "\n")
checks, na = [], []
for x in P:
    id = x["prop"]["id"]
    if x["check"]:
        checks.append({"property": id, "quick_cmd": "./run.sh %s %s" % (x["check"], id),
                       "thorough_cmd": "./run.sh %s %s -tier thorough" % (x["check"], id),
                       "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
    else:
        na.append({"property": id, "reason": x["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
