#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in checks.py (run from /verif)."""
import json, sys
sys.path.insert(0, ".")
import run, checks
NOTES = json.load(open("tools/notes.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
claimed = [p for p in props if p in checks.CHECKS and p in NOTES]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd=f"python3 run.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p}",
                      technique=NOTES[p][0], level=checks.CHECKS[p].get("level", "exploration"), level_note=NOTES[p][1]) for p in claimed],
         not_applicable=[],
         notes="No hooks in /repo: every property is observed at the public API, at the process's file descriptors, at interposed isatty and getenv, at the global allocator, at the system calls made, or by Miri.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print("unclaimed:", [p for p in props if p not in claimed])
