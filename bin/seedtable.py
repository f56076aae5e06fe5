"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/RESULTS."""
import json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | needs | check that catches it |", "|---|---|---|"]
res = dict(l.strip().split(None, 1) for l in open(f"{d}/seeded/RESULTS") if l.strip())
for n in sorted(os.listdir(f"{d}/seeded")):
    p = f"{d}/seeded/{n}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| `{n}` | {m['needs']} | {m['property']}: {res.get(n, '?')} |")
t = open(f"{d}/DESIGN.md").read()
t = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(f"{d}/DESIGN.md", "w").write(t)
