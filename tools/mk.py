#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one source of both)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib.rs"
TECH = {}
P = []
def prop(id, title, statement, over, text, why, mech, tech, note, files=(L,), observe=("the iterator of the parser, Parser::parse, comment handlers",), ready=True):
    if not ready:
        return
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    TECH[id] = (tech, note)
exec(open(os.path.join(root, "tools/props.py")).read())
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash check.sh build",
         checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=TECH[p["id"]][0], level="exploration", level_note=TECH[p["id"]][1]) for p in P],
         not_applicable=[],
         notes="No hooks in /repo: everything the monitors need is observable through the public API. known-findings.txt lists the repaired defects and the recorded ones.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
