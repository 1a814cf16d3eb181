"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["needs"], m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"SEEDTABLE|\| change \| property .*?(?=\n\n)", lambda _: "\n".join(rows), s, count=1, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
