#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "sim"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 --version && g++ --version && clang++ --version",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every source of nondeterminism (allocator, user-supplied types and callbacks, streams, thread "
              "scheduling, memory accesses) is reached through seams that exist already (templates, virtual functions, operator "
              "new, compiler instrumentation). Repairs are listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check " + i,
                            "thorough_cmd": "python3 run.py check %s --thorough" % i,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
