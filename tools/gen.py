#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

YEAR, DAY, HELP, DATA, CONST = "suriya_year.go", "suriya_day.go", "helpers.go", "data.go", "suriya.go"
UPO, CAL, AST, AER, ICS = "uposatha_moon.go", "cal_day.go", "astro_moon.go", "aeris_moon.go", "calendar_event.go"
HALF, MAJ, EV = "half_moon.go", "major_event.go", "event.go"
CLI, CSV = "suriya/suriya.go", "utils/years-csv.go"

def p(id, title, statement, text, why, files, mech, bounds, over=("inputs",), na=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, bounds, na))

exec(open(os.path.join(here, "tools", "props.py")).read())

TECH = "bounded symbolic execution of the code's Go SSA; SMT (z3, cvc5) decides every obligation; counterexamples replayed natively"
NOTE = ("Bounded: holds for every input within {b}; nothing is claimed outside. Trusted: go/ssa, this engine's translation and simplifier, "
        "its models of the standard library calls listed in the evidence, z3 and cvc5; every explored piece replays one witness against the compiled code.")
checks, na = [], []
for d, b, n in P:
    if n:
        na.append(dict(property=d["id"], reason=n))
        continue
    checks.append(dict(property=d["id"], quick_cmd="./check %s quick" % d["id"], thorough_cmd="./check %s thorough" % d["id"],
                       evidence_file="evidence/%s.json" % d["id"], technique=TECH, level="other", level_note=NOTE.format(b=b)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="tools/build", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the engine reads its source. tools/gen.py writes this file and properties.jsonl from tools/props.py.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
