"""Fills the table of planted bugs into DESIGN.md (tools/design.in.md -> DESIGN.md)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
s = open(os.path.join(V, "tools", "design.in.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@@SEEDED@@", "\n".join(rows)))
