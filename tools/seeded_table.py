#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md (between the markers). Run by hand."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.setdefault(m["property"], []).append(f"`{d.name}`")
t = ["| check | planted bugs it catches |", "|----|----|"]
t += [f"| {p} | {', '.join(rows[p])} |" for p in sorted(rows)]
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
s = s[: s.index(a) + len(a)] + "\n".join(t) + "\n" + s[s.index(b):]
p.write_text(s)
