"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read().split("<!-- seeds -->")[0]
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded") + os.listdir(V + "/planted_td")):
    m = json.load(open("%s/%s/%s/meta.json" % (V, "seeded" if os.path.exists(V + "/seeded/" + i) else "planted_td", i)))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["property"]))
open(V + "/DESIGN.md", "w").write(t + "<!-- seeds -->\n" + "\n".join(rows) + "\n")
