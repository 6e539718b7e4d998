#!/opt/venv/bin/python
"""writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the texts below and the registered harnesses"""
import sys, os, json, importlib, glob
sys.path[:0] = ["/verif", "/verif/checks", "/verif/tools"]
import runpy
T = runpy.run_path("/verif/tools/design_texts.py")["T"]
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = runpy.run_path("/verif/tools/na.py")["NA"] if os.path.exists("/verif/tools/na.py") else {}
from symx import harness as H
for f in sorted(os.listdir("/verif/checks")):
    if f.endswith(".py") and f[0].isupper():
        importlib.import_module("checks." + f[:-3])
out = [open("/verif/tools/design_head.md").read().rstrip() + "\n"]
for p in props:
    i = p["id"]
    out.append("\n### %s — %s\n" % (i, p["title"]))
    if i in NA:
        out.append("Not applicable: %s\n" % NA[i]); continue
    if i in T:
        out.append(T[i].strip() + "\n")
    seen = set()
    hs = [h for h in H.REGISTRY.get(i, []) if not (h.name in seen or seen.add(h.name))]
    if hs:
        out.append("\n| harness | code encoded | decided for |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (h.name, ", ".join(h.funcs), h.bounds.replace("|", "/")) for h in hs))
out.append("\n" + open("/verif/tools/design_tail.md").read())
known = open("/verif/known_findings.txt").read().splitlines()
fx = [l[7:] for l in known if l.startswith("fixed:")]
fi = [l[9:] for l in known if l.startswith("finding:")]
out.append("\n## Defects found in RAINBOW\nRepaired (commit in /repo, what failed):\n\n" + "".join("- %s\n" % l.strip() for l in fx) + "\nRecorded, not repaired:\n\n" + "".join("- %s\n" % l.strip() for l in fi))
out.append("\n## Planted bugs (seeded/) and who catches them\n| id | property | needs | caught |\n|---|---|---|---|\n")
miss = runpy.run_path("/verif/tools/design_texts.py")["MISSED"]
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[-2]
    out.append("| %s | %s | %s | %s |\n" % (i, d["property"], d["needs"], miss.get(i, "yes, by the %s check" % d["property"])))
open("/verif/DESIGN.md", "w").write("".join(out))
