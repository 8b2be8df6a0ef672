#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the Go SSA of the real code with SMT (z3), counterexamples replayed natively"
NOTE = ("Every path within the stated bounds is executed symbolically from /repo's current source and every assertion "
        "is decided by an SMT query; sampled paths are replayed on the natively compiled code and must agree. "
        "Trusts the engine's SSA semantics and its models of the runtime ({models}), z3, and the bounds. ")
props, na = [], []

def prop(id, title, statement, over, text, why, files, mech, note="", claimed=True, models="maps, strings, reflect, sync, fmt pointers"):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
    if claimed is True:
        checks.append(dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
            technique=TECH, level="model_checking", level_note=NOTE.format(models=models) + note))
    else:
        na.append(dict(property=id, reason=claimed))
checks = []
exec(open(os.path.join(here, "tools", "props.py")).read())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
        notes="No hooks: harnesses enter through go build overlays. known_findings.json lists findings and repairs; DESIGN.md explains."), f, indent=1, ensure_ascii=False)
    f.write("\n")
