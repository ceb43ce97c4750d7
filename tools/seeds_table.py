#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md: property, and what each of its bugs needs."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
rows = {}
for id in sorted(os.listdir(here)):
    meta = json.load(open(os.path.join(here, id, "meta.json")))
    rows.setdefault(meta["property"], []).append(f"`{id[4:]}`" if id.startswith(meta["property"]) else f"`{id}`")
print("| check | catches (of `seeded/<check>-…`) |\n|-------|------|")
for prop, ids in rows.items():
    print(f"| {prop} | {', '.join(ids)} |")
