#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the PROP record of every rule module and of gsa/declined.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from gsa import declined


def prop(pid, P):
    return {"id": pid, "title": P["title"], "statement": P["statement"],
            "quantifier": {"over": P["over"], "text": P["quant"]},
            "why_tests_cant": P["why"],
            "anchors": {"files": P["files"], "mechanism": [{"name": a, "where": b} for a, b in P["mech"]]}}


props, checks = [], []
for f in sorted(os.listdir(V + "/gsa/rules")):
    if not (f.startswith("p") and f.endswith(".py")):
        continue
    m = importlib.import_module("gsa.rules." + f[:-3])
    if getattr(m, "DRAFT", False):
        continue
    pid = f[:-3].upper()
    P = m.PROP
    assert len(P["title"]) <= 80, P["title"]
    props.append(prop(pid, P))
    checks.append({"property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
                   "technique": P["technique"], "level": "other", "level_note": P["note"]})
for pid, P in declined.DECLINED:
    props.append(prop(pid, P))
with open(V + "/properties.jsonl", "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -B -c 'from gsa import facts; facts.build_tool()'", "checks": checks,
       "not_applicable": [{"property": pid, "reason": P["reason"]} for pid, P in declined.DECLINED],
       "notes": "All checks are static: a libTooling extractor (tool/gfacts.cpp) reads /repo's current sources into typed syntax facts, an abstract interpreter (gsa/absint.py) decides the rules in gsa/rules/. Nothing in /repo is executed."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
for s, d in (("MANIFEST", [man]), ("PROPERTIES", props)):
    sc = json.load(open("/root/.vp/%s.schema.json" % s))
    for x in d:
        jsonschema.validate(x, sc)
print(len(checks), "checks,", len(props), "properties")
