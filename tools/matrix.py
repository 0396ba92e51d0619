#!/usr/bin/python3
"""Table of planted bugs for DESIGN.md: matrix.py prints one line per bug."""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| bug | property | needs | breaks | found by |\n|---|---|---|---|---|")
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    print(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
