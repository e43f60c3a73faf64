"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and the logs of detect.sh."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
doc = open(V + "/DESIGN.md").read()
A, B = "<!-- planted bugs -->\n", "<!-- end -->"
a, b = doc.index(A) + len(A), doc.index(B)
old = {}
for l in doc[a:b].splitlines():
    c = [x.strip() for x in re.split(r"(?<!\\)\|", l.strip("|"))]
    if len(c) == 4:
        old[c[0].strip("*")] = c
rows = ["| planted bug | property | what it breaks (needs) | reported as |", "|---|---|---|---|"]
n = 0
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    got = old.get(i, ["", "", "", "?"])[3]
    f = "/tmp/det/%s.log" % i
    if os.path.exists(f):
        t = open(f).read()
        x = re.search(r"^# (.*)\nVIOLATION property=%s " % m["property"], t, re.M)
        got = "**missed**" if not x else x.group(1).split(":")[0][:70]
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s (%s) | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), c(got)))
    n += 1
doc = doc[:a] + "\n".join(rows) + "\n" + doc[b:]
doc = re.sub(r"`seeded/` holds \S+ planted", "`seeded/` holds %d planted" % n, doc)
open(V + "/DESIGN.md", "w").write(doc)
