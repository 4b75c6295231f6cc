"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property and check that reports it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda m: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", t)
open(p, "w").write(s)
