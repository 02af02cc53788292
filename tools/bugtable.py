#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from the output of `plant.py catch` (a log file)
and seeded/*/meta.json:  bugtable.py LOG"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(CAUGHT|MISSED\S*) (\S+) (C\d+) seed=\d+ rc=(\d+) \S+ ?(.*)", l.strip())
    if m:
        s = re.search(r"section '([^']*)'", m[5])
        res[m[2]] = (m[1], m[3], s[1] if s else "")
rows, n = [], 0
for b in sorted(os.listdir(V + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    st, p, sec = res.get(b, ("not run", meta["property"], ""))
    n += st == "CAUGHT"
    needs = " ".join(meta["needs"].split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (b, needs if len(needs) < 150 else needs[:147] + "...", p, "section \"%s\"" % sec if st == "CAUGHT" else st.lower()))
t = "%d bugs planted, %d caught by the check of their property (quick tier, seed 1).\n\n| bug | needs | check | caught in |\n|---|---|---|---|\n%s\n" % (len(rows), n, "\n".join(rows))
d = open(V + "/DESIGN.md").read()
a, z = "<!-- bugs -->\n", "<!-- end of bugs -->\n"
d = d[: d.index(a) + len(a)] + t + d[d.index(z):]
open(V + "/DESIGN.md", "w").write(d)
print(n, len(rows), [b for b in os.listdir(V + "/seeded") if res.get(b, ("",))[0] != "CAUGHT"])
