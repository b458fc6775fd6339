#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN, LEVEL, TECH, NOTE, NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in PLAN:
        continue
    checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, TECH[""]), "level": LEVEL.get(p, "exploration"), "level_note": NOTE.get(p, NOTE[""])})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none (no hooks are committed in /repo)", "enable": "go test -overlay adds the harness package zz_verif and small export files at build time; /repo is not changed", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in PLAN],
     "notes": "See DESIGN.md. Every check builds from /repo's working tree, starts its own Postgres in a scratch directory and removes it."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
