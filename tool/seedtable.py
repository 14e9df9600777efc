"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
out = ["| check | planted bug | needs |", "|----|----|----|"]
out += ["| %s | %s | %s |" % r for r in sorted(rows)]
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(out) + "\n" + t[j:])
