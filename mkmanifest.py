#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import checks
props = [json.loads(l) for l in open("properties.jsonl")]
TECH = {}
man = dict(version=1,
           setup_cmd="mkdir -p build evidence && /usr/bin/g++-9 --version && /usr/bin/clang++-18 --version && /usr/bin/valgrind --version",
           checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        man["not_applicable"].append(dict(property=p["id"], reason="check under construction"))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd="python3 run_check.py %s --tier quick" % p["id"],
                              thorough_cmd="python3 run_check.py %s --tier thorough" % p["id"],
                              evidence_file="evidence/%s.json" % p["id"],
                              technique=c["technique"], level="exploration", level_note=c["rule"]))
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
