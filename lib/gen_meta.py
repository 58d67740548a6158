#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from specs import SPECS
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(V, "lib", "props.py")).read())
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
claimed = [i for i in ids if i in SPECS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
na = NOT_APPLICABLE
assert set(claimed) | set(n["property"] for n in na) == set(ids), (set(ids) - set(claimed), set(claimed) - set(ids))
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"print('nothing to set up: every check builds from /repo')\"",
    "hooks": {"guard": "ENVIRE_VERIF_HARNESS", "enable": "-DENVIRE_VERIF_HARNESS (set by check.py; no source of /repo uses it)", "source_commits": []},
    "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "technique": TECH.get(i, "stateless model checking of the real code: exhaustive enumeration of all bounded inputs/operation histories with a reference-model oracle"),
                "level": "model_checking", "level_note": NOTE.get(i, "Exhaustive within the bounds stated in DESIGN.md and in the evidence file; every explored trace is an execution of the unmodified implementation."),
                "evidence_file": "evidence/%s.json" % i} for i in claimed],
    "not_applicable": na,
    "notes": "check.py compiles the harness and the needed /repo sources (dependencies that are not installed are replaced by the stand-ins in stubs/) and explores every choice sequence within the bound. Replay: python3 check.py --replay <id> <file>.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(claimed), "claimed")
