"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json (no check reads seeded/)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    rows.setdefault(m["property"], []).append((d, m["needs"]))
for p in sorted(rows):
    print(f"* **{p}**: " + "; ".join(f"`{d}` ({n})" for d, n in rows[p]) + ".")
