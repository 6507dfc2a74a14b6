"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeds.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seeds.json"))
d = open(V + "/DESIGN.md").read()
head = d.split("<!-- seeds -->")[0].rstrip() + "\n\n<!-- seeds -->\n"
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, {})
    what = " ".join(m["what_it_breaks"].split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], "caught" if r.get("caught") else "MISSED", what[:150]))
n = sum("| caught |" in x for x in rows)
open(V + "/DESIGN.md", "w").write(head + "%d planted bugs, %d caught by the check of their property:\n\n" % (len(rows), n)
     + "| id | property | check | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
