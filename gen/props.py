#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({"observe_at": list(observe)} if observe else {}), hook_needed=None)),)
    assert len(title) <= 80, title
    P[-1]["_t"] = technique or "value-graph comparison of every function with a reference function"
    P[-1]["_n"] = note or NOTE

def na(id, reason):
    NA.append(dict(property=id, reason=reason))

NOTE = ("Function-by-function equivalence with reference functions for all inputs, over real arithmetic: equal normal forms, or no random "
        "interpretation of the term algebra distinguishes them. Trusts clang's AST, the term algebra (library calls are either modelled or "
        "uninterpreted), the class invariants listed in DESIGN.md and the references in spec/. Functions outside the fragment are listed as undecided.")
exec(open(os.path.join(HERE, "gen", "table.py")).read())
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
nas = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd="./check.py " + p["id"], thorough_cmd="./check.py %s --thorough" % p["id"],
                      technique=p["_t"], level="other", level_note=p["_n"]) for p in P if p["id"] not in nas],
         not_applicable=NA)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(NA), "not applicable")
