"""Rewrites the generated tables at the end of DESIGN.md (which checks catch which planted bugs) from caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = json.load(open(f"{V}/tools/plant/caught.json"))
rows = []
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); c = t.get(i, {})
    rows.append((m["property"], i, m["needs"], f"{c.get('violations', '?')} by {', '.join(c.get('clauses', [])[:2]) or '?'}" if c.get("caught") else "MISSED" if c else "not run"))
rows.sort()
d = open(f"{V}/DESIGN.md").read().split("<!-- planted -->")[0]
d += "<!-- planted -->\n| check | planted bug | needs | violations reported by the quick check (clauses) |\n|---|---|---|---|\n" + "".join(f"| {a} | {b} | {c} | {e} |\n" for a, b, c, e in rows)
open(f"{V}/DESIGN.md", "w").write(d)
print(len(rows), sum("MISSED" in r[3] or "not run" in r[3] for r in rows))
