#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when a harness names it."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)), note))
INP = ["inputs"]
PARSER = "beatmap/parser.go"
FEW = "The six tests read two well-formed maps (and an UTF-16 copy) and compare a handful of values; "
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

claimed = set()
for fn in os.listdir(os.path.join(ROOT, "harness", "h")):
    for m in re.finditer(r"^//gosym:prop (.*)$", open(os.path.join(ROOT, "harness", "h", fn)).read(), re.M):
        claimed.update(m.group(1).split())
claimed -= set(NOT_YET)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, note in P:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i, thorough_cmd="./check.sh %s --thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the Go SSA of /repo with SMT-decided assertions and native replay of counterexamples",
            level="model_checking",
            level_note=(note + " " if note else "") + BASE_NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet; planned in DESIGN.md")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: /repo is encoded and replayed as it is", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Bounds of every harness are in its doc comment (harness/h) and in the evidence file; DESIGN.md describes the encoding, the axioms and the findings.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
