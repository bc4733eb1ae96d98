#!/usr/bin/env python3
"""tools/newseed.py FILE.py: FILE defines (or lists in `seeds`) id, prop, needs, breaks, edits=[(path,old,new)], demo (shell text), files={name:text}; writes /verif/seeded/ID."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
todo = []
for fn in sys.argv[1:]:
    g = dict(files={}, also=[])
    exec(open(fn).read(), g)
    todo += [dict(dict(files={}), **x) for x in g["seeds"]] if "seeds" in g else [g]
sh = lambda c: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, check=True).stdout
os.makedirs(W, exist_ok=True)
if not os.path.isdir(W+"/repo"): sh(f"cp -a /repo {W}/repo")
sh(f"git -C {W}/repo checkout -q -- . && git -C {W}/repo fetch -q /repo HEAD && git -C {W}/repo reset -q --hard FETCH_HEAD")
for g in todo:
    for p, a, b in g["edits"]:
        f = f"{W}/repo/crates/{p}"
        s = open(f).read()
        assert s.count(a) == 1, (g["id"], p, a, s.count(a))
        open(f, "w").write(s.replace(a, b))
    d = f"{here}/seeded/{g['id']}"
    os.makedirs(d, exist_ok=True)
    open(d+"/patch.diff", "w").write(sh(f"git -C {W}/repo diff"))
    sh(f"git -C {W}/repo checkout -q -- .")
    open(d+"/demo.sh", "w").write(g["demo"])
    for n, t in g["files"].items(): open(f"{d}/{n}", "w").write(t)
    m = dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["breaks"])
    json.dump(m, open(d+"/meta.json", "w"), indent=1)
    print(g["id"])
