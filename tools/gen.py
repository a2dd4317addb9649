#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOTES  # noqa

checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
            ),
        )
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, d["title"]
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(d) + "\n")
        if p.get("na"):
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        assert os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py"))
        checks.append(dict(
            property=p["id"],
            quick_cmd=f"./check {p['id']} quick",
            thorough_cmd=f"./check {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"],
            level="model_checking",
            level_note=p["note"],
        ))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
