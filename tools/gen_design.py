"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (and tools/caught.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
rows = ["| planted bug | needs | others |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {' '.join(c for c in caught.get(d, []) if c != m['property'])} |")
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t)
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
