#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note=None, na=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None),
                  _note=note, _na=na, _tech=tech))


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

TECH = "TLA+ specification checked with TLC; recorded executions of the real code checked against it"
man = dict(
    version=1,
    setup_cmd="python3 run.py setup",
    checks=[dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                 thorough_cmd="python3 run.py %s thorough" % p["id"],
                 technique=p["_tech"] or TECH, level="model_checking",
                 level_note=p["_note"]) for p in P if not p["_na"]],
    hooks=dict(guard="none", enable="no hooks: every observation is through the public API", source_commits=[]),
    not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]],
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
