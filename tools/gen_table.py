"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def short(t, n=150):
    return t if len(t) <= n else t[:n].rsplit(" ", 1)[0] + " …"
rows = ["| id | breaks | needs |", "|---|---|---|"]
for i in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {short(m['what_it_breaks'])} | {short(m['needs'])} |")
p = f"{root}/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| id \| breaks \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s, count=1)
open(p, "w").write(s)
