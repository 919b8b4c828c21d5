#!/usr/bin/env python3
"Writes the table of planted bugs into DESIGN.md (between the marks)."
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
        m = json.load(f)
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
