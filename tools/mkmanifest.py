"""writes MANIFEST.json from properties.jsonl and the checks present"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
NA = {}
try:
    from na import NA
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(R, "checks", i + ".py")
    if os.path.exists(f) and i not in NA:
        src = open(f).read()
        m = re.search(r'^NOTE = """(.*?)"""', src, re.S | re.M)
        note = " ".join(m.group(1).split()) if m else "Real arithmetic; bounds per harness are listed in the evidence file."
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python -W ignore run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python -W ignore run.py %s" % i,
                           technique="symbolic execution of the real Python source, path exploration and obligations decided by z3 (nonlinear real arithmetic with canonical forms); counterexamples replayed on the real code",
                           level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet built")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore -c 'import symx.harness'", checks=checks, not_applicable=na),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
