"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CLAIMS, NA = [], [], []


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


def claim(id, technique, note):
    CLAIMS.append({"property": id, "quick_cmd": "python3 smtlint/check.py %s --tier quick" % id, "thorough_cmd": "python3 smtlint/check.py %s --tier thorough" % id,
                   "evidence_file": "evidence/%s.json" % id, "technique": technique, "level": "other", "level_note": note})


def na(id, reason):
    NA.append({"property": id, "reason": reason})


AI = "static analysis: whole-program abstract interpretation of the Python source"
NOTE = ("Decided from the source on every run: every path of the driven public lives is abstracted, so a pass covers all inputs and option values the driver leaves unknown. "
        "Trusted: the models of numpy/scipy/scikit-learn, the drivers, and that calls the analysis cannot resolve have no effect on library objects (counted in the evidence). ")

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in PROPS}
assert ids == {c["property"] for c in CLAIMS} | {n["property"] for n in NA}, ids ^ ({c["property"] for c in CLAIMS} | {n["property"] for n in NA})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q smtlint", "checks": CLAIMS, "not_applicable": NA,
               "notes": "No hooks: the checks only read the source of /repo. See DESIGN.md."}, f, indent=1)
print(len(PROPS), "properties,", len(CLAIMS), "claimed")
