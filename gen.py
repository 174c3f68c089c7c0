#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from sa/properties.py and the check registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import properties  # noqa: E402
from sa.checks import registry  # noqa: E402

import jsonschema  # noqa: E402

checks = []
na = {x["property"] for x in properties.NA}
for p in properties.P:
    if p["id"] in na:
        continue
    s = registry.CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} quick",
                   "thorough_cmd": f"python3-vt check.py {p['id']} thorough",
                   "technique": s.technique, "level": s.level, "level_note": s.note})
man = {"version": 1, "setup_cmd": "python3-vt selftest.py" if os.path.exists(os.path.join(HERE, "selftest.py")) else "python3-vt -c 'import sympy'",
       "checks": checks, "not_applicable": properties.NA}
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in properties.P:
    jsonschema.validate(p, sch)
    assert p["statement"].count(". ") <= 2, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
ids = [p["id"] for p in properties.P]
assert len(ids) == len(set(ids)) and na <= set(ids)
assert set(registry.CHECKS) == set(ids) - na, set(registry.CHECKS) ^ (set(ids) - na)
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in properties.P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")


def between(text, mark, new):
    a, b = text.index(f"<!-- {mark} -->"), text.index(f"<!-- /{mark} -->")
    return text[:a] + f"<!-- {mark} -->\n" + new + text[b:]


design = open(os.path.join(HERE, "DESIGN.md"), encoding="utf-8").read()
title = {p["id"]: p["title"] for p in properties.P}
design = between(design, "na", "".join(f"- {x['property']} *{title[x['property']]}*: {x['reason']}.\n" for x in properties.NA))
seeded = os.path.join(HERE, "seeded")
if os.path.isdir(seeded):
    rows = "| bug | what it breaks | needs |\n|---|---|---|\n"
    for d in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, d, "meta.json")))
        rows += f"| {d} | {m['what_it_breaks']} | {m['needs']} |\n".replace("\n ", " ")
    design = between(design, "bugs", rows)
with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as fh:
    fh.write(design)
print(len(checks), "checks,", len(man["not_applicable"]), "not applicable")
