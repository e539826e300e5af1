"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| planted bug \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
open(p, "w").write(s)
