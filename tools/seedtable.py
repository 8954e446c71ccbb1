# writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (written by hand after tools/plant.py)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDED", os.path.join(V, "seeded"))
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), "; ".join(caught.get(i, ["not caught"]))))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
h, t = s.split(a)[0], s.split(b)[1]
open(p, "w").write(h + a + "\n".join(rows) + "\n" + b + t)
