#!/usr/bin/env python3
"""dev helper: package and confirm planted bugs.

usage: plant.py FILE.py [ids...]; FILE.py defines BUGS = {id: dict(prop, file, edits=[(old,new)..], demo, needs, breaks)}
Applies the edit to /repo, runs the stable tests, the demo and the property's check, undoes it and writes /verif/seeded/<id>.
"""
import sys, os, json, subprocess, runpy
G = ["git", "-C", "/repo"]
bugs = runpy.run_path(sys.argv[1])["BUGS"]
ids = sys.argv[2:] or list(bugs)
SH = '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" NUMBA_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 /opt/venv/bin/python -W ignore "$HERE/demo.py"\n'
def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)
for i in ids:
    b = bugs[i]
    assert not sh(G + ["status", "--porcelain"]).stdout, "dirty /repo"
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(b["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh(["bash", d + "/demo.sh"], cwd="/repo")
    if r.returncode != 0:
        print(i, "DEMO FAILS ON CLEAN", r.stdout[-600:], r.stderr[-600:]); ok = False
    f = "/repo/rainbow/" + b["file"]
    s = open(f).read()
    for old, new in b["edits"]:
        if s.count(old) != 1:
            print(i, "EDIT MATCHES", s.count(old), repr(old[:60])); ok = False
        s = s.replace(old, new, 1)
    if not ok:
        sh(["rm", "-rf", d]); continue
    open(f, "w").write(s)
    try:
        open(d + "/patch.diff", "w").write(sh(G + ["diff"]).stdout)
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        dem = r.returncode
        st = sh(["bash", "/verif/tools/stable.sh"]).stdout.strip()
        c = sh(["bash", "-c", "cd /verif && python3 -c \"import json;print([x for x in json.load(open('MANIFEST.json'))['checks'] if x['property']=='%s'][0]['quick_cmd'] if 1 else '')\"" % b["prop"]]) if False else None
        k = sh(["/opt/venv/bin/python", "-W", "ignore", "run.py", b["prop"]], cwd="/verif") if os.path.exists("/verif/checks/%s.py" % b["prop"]) else None
        v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")] if k else []
        print(i, b["prop"], "demo=%d" % dem, st, "check=%s" % (k.returncode if k else "none"), v[:1], "" if (dem and st == "stable ok") else "REJECT " + r.stderr[-300:], flush=True)
        if not dem or st != "stable ok":
            sh(["rm", "-rf", d])
    finally:
        sh(G + ["checkout", "--", "."])
