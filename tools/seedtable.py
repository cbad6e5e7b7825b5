"""Write the table of planted bugs into DESIGN.md from the output of runseeds.py: seedtable.py LOG"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(s\d\d_\w+) (C\d\d) (caught|MISSED|NO ANSWER) ?(.*)", l)
    if m:
        c = re.match(r"clauses (\S+) broken", m.group(4))
        res[m.group(1)] = (m.group(3), c.group(1).replace(",", ", ") if c else ("the run does not return" if "does not return" in m.group(4) else ""))
rows = ["| planted bug | property | needs | outcome | clauses |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, ("not run", ""))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], r[0], r[1]))
p = V + "/DESIGN.md"
s = open(p).read()
a = s.index("## Planted bugs") + len("## Planted bugs\n")
s = s[:a] + "\nEach bug is run against the check of its property (`tools/runseeds.py`); every one passes the existing tests.\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
