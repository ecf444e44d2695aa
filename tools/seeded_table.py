"""Rewrites the table of planted bugs in DESIGN.md."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
out = ["| property (its check catches) | planted bugs |", "|---|---|"]
rows = {}
for d in sorted(os.listdir(S)):
    rows.setdefault(json.load(open(os.path.join(S, d, "meta.json")))["property"], []).append(d)
for p in sorted(rows):
    out.append("| %s | %s |" % (p, ", ".join(rows[p])))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)", lambda m: m.group(1) + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
