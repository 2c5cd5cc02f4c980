"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (and seeded/NOTES, which check missed which at first)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = dict(l.rstrip("\n").split(" ", 1) for l in open(V + "/tools/missed.txt")) if os.path.exists(V + "/tools/missed.txt") else {}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append((m["property"], i, m["what_it_breaks"], notes.get(i, "yes")))
t = "\n| property | planted bug | what it breaks | caught |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
s = open(V + "/DESIGN.md").read()
mark = "<!-- table -->"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + "\n" + t
open(V + "/DESIGN.md", "w").write(s)
