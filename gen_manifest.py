#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks in lib/props."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, "lib"), os.path.join(VERIF, "lib", "props")]
import run
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
have = set(run.ids())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        P = run.prop(i)
        checks.append({"property": i,
                       "quick_cmd": "python3 run.py check %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": P.technique, "level": P.level, "level_note": P.note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources unmodified, with build rules of their own, into /verif/build. "
              "Replay a reported case with: python3 run.py replay <file>. Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks")
