#!/usr/bin/env python3
"""Source of MANIFEST.json: run it to regenerate the file."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = {}  # id -> (technique, level, note)
N = {}  # id -> reason
def claim(id, technique, note, level="exploration"): T[id] = (technique, level, note)
COMMON = " Covers the fixed list of generated cases only; trusts the harness's own geometry and interpreter."
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
m = dict(version=1,
    setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % p["id"],
        technique=T[p["id"]][0], level=T[p["id"]][1], level_note=T[p["id"]][2] + COMMON) for p in props if p["id"] in T],
    not_applicable=[dict(property=p["id"], reason=N.get(p["id"], "the check is not built yet")) for p in props if p["id"] not in T],
    notes="No hooks: every monitor observes return values of the exported API, written files and exit codes of the commands. See DESIGN.md.")
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(T), "claimed,", len(props) - len(T), "not")
