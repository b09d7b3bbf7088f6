#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "parametricmatrixmodels/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=[PK + f for f in files],
            state=[dict(name=n, meaning=m, where=PK + w) for n, m, w in state],
            mechanism=[dict(name=n, where=PK + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

TECH = "property-based testing (Hypothesis generators, shrinking) against "
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = dict(
    version=1,
    setup_cmd="python3 check.py --help > /dev/null",
    checks=[dict(
        property=p["id"],
        quick_cmd=f"python3 check.py {p['id']}",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique=TECH + ORACLE[p["id"]],
        level="exploration",
        level_note=NOTE[p["id"]],
    ) for p in PROPS if p["id"] in ORACLE],
    not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in PROPS if p["id"] not in ORACLE],
    notes="Every check re-executes under /opt/venv/bin/python with /repo first on the path, so it always "
          "exercises /repo's current working tree; there is nothing to build and no hooks are used. "
          "VERIF_SEED selects the generated cases.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
