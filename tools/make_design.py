#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append(f"| {m.parent.name} | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->\n(.*?\n<!-- /seeds -->\n)?", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->\n", s, count=1, flags=re.S)
p.write_text(s)
