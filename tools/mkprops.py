#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "ref-exchange/src/"
FA = "ref-farming/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level="", na=None, claim=True):
    base = FA if id >= "C40" else EX
    at = lambda f: f if f.startswith("ref-") else base + f
    a = {"files": [at(f) for f in files.split()], "mechanism": [{"name": n, "where": at(w)} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": at(w)} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over.split(), "text": text}, why_tests_cant=why, anchors=a, _level=level, _na=na))

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    # one statement, at most three sentences
    assert p["statement"].count(". ") <= 2, p["id"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds the two contracts from /repo's working tree as wasm and runs them on a simulated chain (harness/). See DESIGN.md.",
}
COMMON = "Generated search, not proof: the property held on every generated case of the run (counts and samples in the evidence). Trusts the simulated host (no gas metering), the models of the peer contracts and the oracle stated in DESIGN.md."
for p in P:
    if p["_na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing: " + p["_level"],
        "level": "exploration",
        "level_note": COMMON,
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
