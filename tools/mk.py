#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/specs.py (text) and props.py (checks)."""
import json, os, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from specs import SPECS
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for s in SPECS:
        assert len(s["title"]) <= 80, s["title"]
        mech = [dict(name=n, where=w) for n, w in s["mech"]]
        f.write(json.dumps(dict(id=s["id"], title=s["title"], statement=s["statement"],
                quantifier=dict(over=s["over"], text=s["q"]), why_tests_cant=s["why"],
                anchors=dict(files=s["files"], mechanism=mech))) + "\n")
checks, na = [], []
for s in SPECS:
    i = s["id"]
    if i in PROPS and not s.get("na"):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the compiled source (LLVM IR) with an SMT solver (z3)", level="model_checking",
            level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=s.get("na", "no check built yet")))
m = dict(version=1, setup_cmd="make -s -j8 -C engine OUT=/verif/build/engine", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
