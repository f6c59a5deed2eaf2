#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one place to keep them in step)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTE  # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         **({"observe_at": p["observe"]} if "observe" in p else {})))) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./run.py {i} quick", thorough_cmd=f"./run.py {i} thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique="symbolic execution of the real rocketry source with Z3 deciding every branch and assertion (bounded)",
                       level="model_checking", level_note=p.get("note", LEVEL_NOTE)))
man = dict(version=1, setup_cmd="./run.py --selftest", checks=checks, not_applicable=NOT_APPLICABLE)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
