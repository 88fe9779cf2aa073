#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| property | planted bug | what it needs |\n|---|---|---|")
rows = []
for d in os.listdir(root):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    rows.append((m["property"], d, m["needs"].rstrip(".")))
for r in sorted(rows):
    print("| %s | %s | %s |" % r)
