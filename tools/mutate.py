#!/opt/venv/bin/python
"""dev helper: systematic mutation sweep. For every function named by a harness, small AST mutations are applied in a
scratch copy of the package and the property checks naming that function are run on it; survivors are listed.
usage: mutate.py OUT.log [--props A,B] [--per N] [--seed S] [--par P] [--list]"""
import ast, os, sys, random, subprocess, shutil, copy, argparse, threading
from concurrent.futures import ThreadPoolExecutor
sys.path[:0] = ["/verif", "/verif/checks"]
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--props"); ap.add_argument("--per", type=int, default=8); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--par", type=int, default=3); ap.add_argument("--jobs", default="2"); ap.add_argument("--list", action="store_true"); ap.add_argument("--funcs")
a = ap.parse_args()
import importlib
from symx import harness as H
for f in sorted(os.listdir("/verif/checks")):
    if f.endswith(".py") and f[0].isupper():
        importlib.import_module("checks." + f[:-3])
want = {}
for p, hs in H.REGISTRY.items():
    for h in hs:
        for fn in h.funcs:
            want.setdefault(fn, {}).setdefault(p, []).append(h.name)
files = {}
for root, _, fs in os.walk("/repo/rainbow"):
    for f in fs:
        if f.endswith(".py"):
            files.setdefault(f[:-3], []).append(os.path.join(root, f))
PROF = ("profil", "debug_on", "stats", "timer", "Timer", "performance_data", "raise ", "print(")

def funcs_in(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n
def qual(tree):
    out = {}
    def rec(n, pre):
        for m in ast.iter_child_nodes(n):
            if isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                q = pre + m.name
                out.setdefault(q, m); rec(m, q + ".")
            else:
                rec(m, pre)
    rec(tree, "")
    return out

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
def sites(fn, src):
    """(path, kind) sites inside a function"""
    lines = src.splitlines()
    out = []
    for n in ast.walk(fn):
        ln = getattr(n, "lineno", None)
        if ln is None: continue
        text = lines[ln - 1]
        if any(t in text for t in PROF): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if type(n.ops[0]) in SWAP: out.append((n, "cmp"))
            if type(n.ops[0]) in FLIP: out.append((n, "flip"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN: out.append((n, "bin"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant): out.append((n, "neg"))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float): out.append((n, "const"))
        elif isinstance(n, ast.Constant) and type(n.value) is bool: out.append((n, "bool"))
        elif isinstance(n, ast.BoolOp): out.append((n, "bool_op"))
        elif isinstance(n, ast.AugAssign): out.append((n, "aug"))
        elif isinstance(n, ast.If): out += [(n, "iftrue"), (n, "iffalse")]
        elif isinstance(n, ast.Call):
            t = ast.unparse(n.func)
            if t in ("np.copy", "np.array", "float", "np.abs", "np.fabs", "abs", "np.transpose", "V3.unit", "Q.unit", "Q.conjugate", "np.linalg.inv") and n.args: out.append((n, "drop"))
            elif t.endswith(".copy") and not n.args: out.append((n, "dropm"))
            elif len(n.args) == 2 and not n.keywords and t not in ("max", "min", "np.maximum", "np.minimum", "isinstance", "np.dot", "np.clip"): out.append((n, "swap"))
            if t in ("np.max", "np.maximum", "max"): out.append((n, "tomin"))
            if t in ("np.min", "np.minimum", "min"): out.append((n, "tomax"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load): out.append((n, "name"))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == "T": out.append((n, "dropT"))
        elif isinstance(n, (ast.Assign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): 
            if isinstance(n, ast.Expr): out.append((n, "del"))
    return out
def apply(n, kind, fn, rnd):
    """in place; returns replacement node or None (mutated in place)"""
    if kind == "cmp": n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == "flip": n.ops[0] = FLIP[type(n.ops[0])]()
    elif kind == "bin": n.op = BIN[type(n.op)]()
    elif kind == "neg": return n.operand
    elif kind == "const": n.value = n.value + 1 if isinstance(n.value, int) else (n.value * 2 if n.value else 1.0)
    elif kind == "bool": n.value = not n.value
    elif kind == "bool_op": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "aug": return ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno)
    elif kind == "iftrue": n.test = ast.Constant(True)
    elif kind == "iffalse": n.test = ast.Constant(False)
    elif kind == "drop": return n.args[0]
    elif kind == "dropm": return n.func.value
    elif kind == "swap": n.args = n.args[::-1]
    elif kind == "tomin": (setattr(n.func, "attr", n.func.attr.replace("max", "min")) if isinstance(n.func, ast.Attribute) else setattr(n.func, "id", "min"))
    elif kind == "tomax": (setattr(n.func, "attr", n.func.attr.replace("min", "max")) if isinstance(n.func, ast.Attribute) else setattr(n.func, "id", "max"))
    elif kind == "name":
        loc = sorted({m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} | {x.arg for x in fn.args.args})
        near = [x for x in loc if x != n.id and len(x) == len(n.id) and sum(p != q for p, q in zip(x, n.id)) == 1]
        if n.id not in loc or not near: return False
        n.id = rnd.choice(near)
    elif kind == "dropT": return n.value
    elif kind == "del": return ast.Pass()
    return None
class Rep(ast.NodeTransformer):
    def __init__(self, old, new): self.o, self.n = old, new
    def visit(self, node):
        if node is self.o: return ast.copy_location(self.n, node)
        return self.generic_visit(node)

ALLQ = {}
for ps in files.values():
    for p in ps:
        for q in qual(ast.parse(open(p).read())):
            ALLQ.setdefault(q, []).append((p, q))
            if "." in q: ALLQ.setdefault(q.split(".")[-1], []).append((p, q))
            cls = q
rnd = random.Random(a.seed)
jobs = []
for fn, props in sorted(want.items()):
    if a.props and not set(props) & set(a.props.split(",")): continue
    if a.funcs and not any(x in fn for x in a.funcs.split(",")): continue
    cand = []
    if "." in fn and fn.split(".", 1)[0] in files:
        cand = [(p, fn.split(".", 1)[1]) for p in files[fn.split(".", 1)[0]]]
    if not cand and fn in ALLQ:
        cand = [(p, q) for p, q in ALLQ[fn] if len(ALLQ[fn]) <= 3]
    for path, q in cand:
        src = open(path).read()
        tree = ast.parse(src)
        qs = qual(tree)
        if q not in qs: continue
        node = qs[q]
        if isinstance(node, ast.ClassDef): continue
        ss = sites(node, src)
        idx = list(range(len(ss))); rnd.shuffle(idx)
        k = 0; used = set()
        for i in idx:
            if k >= a.per: break
            t2 = ast.parse(src); n2 = qual(t2)[q]
            s2 = sites(n2, src)[i]
            before = ast.unparse(n2)
            if (s2[0].lineno, s2[1]) in used: continue
            r = apply(s2[0], s2[1], n2, rnd)
            if r is False: continue
            if r is not None: Rep(s2[0], r).visit(t2)
            ast.fix_missing_locations(t2)
            after = ast.unparse(qual(t2)[q])
            if before == after: continue
            used.add((s2[0].lineno, s2[1]))
            b, c = before.splitlines(), after.splitlines()
            d = [(x, y) for x, y in zip(b, c) if x != y][:1]
            # textual replacement of the function only, so that the rest of the file is untouched
            seg = src.splitlines(keepends=True)
            first = min([node.lineno] + [x.lineno for x in node.decorator_list])
            ind = " " * node.col_offset
            body = "".join(ind + l + "\n" for l in after.splitlines())
            new = "".join(seg[:first - 1]) + body + "".join(seg[node.end_lineno:])
            jobs.append((fn, dict(props), path, new, s2[1], d)); k += 1
rnd.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
if a.list:
    for j in jobs: print(j[0], j[4], j[5])
    sys.exit()
FROZEN = "/tmp/mt/frozen_%d" % os.getpid()
shutil.copytree("/repo/rainbow", FROZEN + "/rainbow", ignore=shutil.ignore_patterns("__pycache__"))
done = [l.split(" ", 3)[1:] for l in open(a.out)] if os.path.exists(a.out) else []
log = open(a.out, "a"); lock = threading.Lock()
def go(job):
    n, (fn, props, path, new, kind, d) = job
    if any(x[0] == fn and x[1] == kind and str(d) in x[2] for x in done): return
    base = "/tmp/mt/%d_%d" % (os.getpid(), n)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree(FROZEN + "/rainbow", base + "/rainbow")
    open(base + path[len("/repo"):], "w").write(new)
    res = []
    for p, only in [(p, o) for p, o in sorted(props.items())] + [(p, None) for p in sorted(props)]:
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "run.py", p, "--jobs", a.jobs] + (["--only", ",".join(only)] if only else []), cwd=os.environ.get("VERIF", "/verif"), capture_output=True, text=True, env={**os.environ, "RAINBOW_REPO": base}, timeout=400)
            res.append((p, r.returncode, "" if r.returncode != 2 else (r.stdout + r.stderr)[-300:].replace("\n", " | ")))
        except subprocess.TimeoutExpired:
            res.append((p, "timeout", ""))
        if res[-1][1] == 1: break
    st = "killed" if res[-1][1] == 1 else ("SURVIVED" if all(x[1] == 0 for x in res) else "NOANSWER")
    with lock:
        log.write("%s %s %s %s %s %s\n" % (st, fn, kind, [x[:2] for x in res], d, [x[2] for x in res if x[2]] or "")); log.flush()
    shutil.rmtree(base, ignore_errors=True)
with ThreadPoolExecutor(a.par) as ex:
    list(ex.map(go, enumerate(jobs)))
