#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "XAD_VERIF_CHUNK_SIZE",
               "enable": "the harness builds (run.py) compile /repo/src with -DXAD_VERIF_CHUNK_SIZE=<n>",
               "source_commits": ["84e353b"]},
     "checks": [], "not_applicable": [],
     "notes": "see DESIGN.md; known findings and fixed defects in known_findings.txt"}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", "property-based testing: generated programs against a reference model, with shrinking"),
                            "level": c.get("level", "exploration"),
                            "level_note": c.get("note", "Random search over generated cases with a reference oracle; a pass means no counterexample among the cases counted in the evidence.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check for this property is not built yet"})
open(HERE + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "claimed")
