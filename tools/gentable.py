#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (section 5)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
print("| planted bug | property | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(root.iterdir()):
    m = json.loads((d / "meta.json").read_text())
    c = lambda s: " ".join(s.split()).replace("|", "\\|")
    print(f"| {d.name} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
