#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing.

A property is claimed when sim/props/<id>.py exists.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "ebsdtorch/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=""):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[E + f for f in files],
                mechanism=[dict(name=n, where=E + w) for n, w in mech],
                state=[dict(name=n, meaning=m) for n, m in state],
                observe_at=list(observe),
                hook_needed=None,
            ),
            _na=na,
            _note=note,
        )
    )


NOTE = (
    "Seeded search over simulated executions of the real code; no exhaustiveness. Trusts the reference model in the scenario, "
    "the torch CPU kernels and the seams (allocator, RNG, clock, scheduler, files/streams/devices)."
)

exec(open(os.path.join(V, "tools", "propdefs.py")).read())

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert len(p["statement"].split(". ")) <= 3, p["id"]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

checks, na = [], []
for p in P:
    i = p["id"]
    if p["_na"]:
        na.append(dict(property=i, reason=p["_na"]))
    elif os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./run.sh {i} quick",
                thorough_cmd=f"./run.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique="deterministic simulation with fault injection (seeded schedule and fault search against a reference model)",
                level="exploration",
                level_note=(p["_note"] + " " if p["_note"] else "") + NOTE,
            )
        )
    else:
        na.append(dict(property=i, reason="Not claimed yet: the scenario for it is not built."))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import sim.seams as s; s.import_repo()\"",
    checks=checks,
    not_applicable=na,
    notes="No hooks in /repo: every seam is reached from outside (torch dispatch, Python tracing, module attributes, file and device objects). "
    "See DESIGN.md; tools/props.py writes this file and properties.jsonl.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties", len(checks), "claimed", len(na), "not applicable / not claimed")
