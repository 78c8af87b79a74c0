#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json (development tool)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| bug | breaks | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
