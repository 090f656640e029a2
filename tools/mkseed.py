#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: writes seeded/<ID>/ from a spec defining ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (bash)."""
import sys, os, difflib, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
files = {}
for f, old, new in ns["EDITS"]:
    if f not in files:
        s = open("/repo/" + f).read(); files[f] = [s, s]
    assert files[f][1].count(old) == 1, (f, old, files[f][1].count(old))
    files[f][1] = files[f][1].replace(old, new)
with open(d + "/patch.diff", "w") as o:
    for f, (a, b) in files.items():
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            o.write(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: the property holds here\n" + ns["DEMO"].lstrip("\n"))
os.chmod(d + "/demo.sh", 0o755)
for n, t in ns.get("FILES", {}).items():
    open(d + "/" + n, "w").write(t)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
print(d)
