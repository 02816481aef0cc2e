"""Rewrites the table of planted bugs in DESIGN.md.  Run from /verif."""
import glob, json, os
rows = {}
for d in glob.glob("seeded/*/meta.json"):
    m = json.load(open(d))
    rows.setdefault(m["property"], []).append((int(os.path.basename(os.path.dirname(d))[1:]), m["what_it_breaks"]))
t = open("DESIGN.md").read().split("<!-- table -->")[0] + "<!-- table -->\n\n| check | catches |\n|---|---|\n"
for p in sorted(rows):
    t += "| %s | %s |\n" % (p, "; ".join("s%02d %s" % (n, w.split("\n")[0][:110].replace("|", "/")) for n, w in sorted(rows[p])))
open("DESIGN.md", "w").write(t)
