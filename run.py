#!/opt/venv/bin/python
"""run.py PROPERTY [--only HARNESS] [--seq] | run.py --replay FILE
Decides one property by symbolic execution of /repo's current source (see DESIGN.md)."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(v, "1" if v != "NUMBA_NUM_THREADS" else "2")
sys.setrecursionlimit(20000)


def load_checks(prop):
    from symx import harness
    path = os.path.join(HERE, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, "checks"))
    spec.loader.exec_module(m)
    return harness.REGISTRY.get(prop, []), m


def _worker(prop, name, seed, tier, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    from symx import harness
    h = [x for x in harness.REGISTRY[prop] if x.name == name][0]
    ex = harness.Explorer(h, seed, tier)
    r = ex.run()
    conn.send(r.as_dict())
    conn.close()


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split("|")[0].split())
                d["text"] = line.split("|", 1)[1].strip()
                out.append(d)
    return out


def run_property(prop, only=None, jobs=8, verbose=True):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from symx import harness
    hs, mod = load_checks(prop)
    if tier == "quick":
        hs = [h for h in hs if not h.opts.get("thorough_only")]
    if only:
        hs = [h for h in hs if h.name in only.split(",")]
    limit = 700 if tier == "quick" else 3400
    pend = sorted(hs, key=lambda h: -h.opts.get("cost", 1))
    running, results = {}, {}
    tries = {}
    while pend or running:
        while pend and len(running) < jobs:
            h = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(prop, h.name, seed, tier, b))
            p.start()
            b.close()
            running[h.name] = (p, a, time.time(), h)
        time.sleep(0.02)
        for n in list(running):
            p, a, st, h = running[n]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status="inconclusive", message="worker died (out of memory?)")
            elif not p.is_alive():
                r = dict(status="inconclusive", message="worker died with code %s" % p.exitcode)
            elif time.time() - t0 > limit:
                r = dict(status="inconclusive", message="time limit of the check")
                p.kill()
            if r is not None:
                p.join(2)
                if p.is_alive():
                    p.kill()
                del running[n]
                if r["status"] == "inconclusive" and tries.get(n, 0) < 1 and time.time() - t0 < limit / 3 \
                        and "unknown" in r.get("message", ""):
                    tries[n] = tries.get(n, 0) + 1
                    h.opts["t_prove"] = h.opts.get("t_prove", 20000) * 3
                    h.opts["t_branch"] = h.opts.get("t_branch", 1500) * 2
                    pend.append(h)
                    continue
                results[n] = r
                if verbose:
                    print("  %-40s %-12s paths=%-5s obl=%-6s nf=%-6s smt=%-5s q=%-6s solver=%.1fs wall=%.1fs" % (
                        n, r["status"], r.get("paths", "?"), r.get("obligations", "?"), r.get("closed_nf", "?"),
                        r.get("closed_solver", "?"), r.get("queries", "?"), r.get("solver_s", 0), r.get("wall", 0)))
                    if r["status"] == "inconclusive":
                        print("    " + r["message"].replace("\n", "\n    "))
                    sys.stdout.flush()
    rc = 0
    known = known_findings()
    viol = 0
    lines = []
    for h in hs:
        r = results[h.name]
        if r["status"] == "violation":
            v = r["violation"]
            hit = None
            for k in known:
                if k.get("property") == prop and k.get("harness") == h.name and v["what"].startswith(k.get("assertion", "\0")):
                    hit = k
            if hit:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit["text"]))
                continue
            viol += 1
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            rp = os.path.join(HERE, "evidence", "replay_%s_%s.json" % (prop, h.name))
            with open(rp, "w") as f:
                json.dump(dict(property=prop, harness=h.name, values=v["values"], what=v["what"], tier=tier), f, indent=1)
            lines.append("  %s: %s" % (h.name, v["what"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
    if rc == 0 and any(r["status"] == "inconclusive" for r in results.values()):
        rc = 2
    wall = time.time() - t0
    if not only:
        write_evidence(prop, tier, seed, hs, results, wall, viol, mod)
    for l in lines:
        print(l)
    print("%s %s: %d harnesses, %d obligations, %.1fs" % (
        prop, {0: "holds within bounds", 1: "VIOLATED", 2: "INCONCLUSIVE"}[rc], len(hs),
        sum(r.get("obligations", 0) for r in results.values()), wall))
    return rc


def write_evidence(prop, tier, seed, hs, results, wall, viol, mod):
    g = lambda k: sum(results[h.name].get(k, 0) or 0 for h in hs)
    samples = []
    for h in hs:
        samples += results[h.name].get("samples", [])[:2]
    cov = dict(
        states=g("paths"), transitions=g("decisions"), traces_validated_against_impl=g("validated"),
        samples=samples[:40] or ["none"],
        obligations=g("obligations"), discharged=g("closed_nf") + g("closed_solver"),
        discharged_by_canonical_form=g("closed_nf"), discharged_by_solver_search=g("closed_solver"),
        solver_queries=g("queries"), solver_seconds=round(g("solver_s"), 2),
        undecided_branches_explored_both_ways=g("unknown_branches"),
        denominators_assumed_nonzero=g("assumed_nonzero"),
        functions_encoded=sorted({f for h in hs for f in h.funcs}),
        harnesses=[dict(name=h.name, bounds=h.bounds, status=results[h.name]["status"],
                        paths=results[h.name].get("paths"), obligations=results[h.name].get("obligations"),
                        wall_s=round(results[h.name].get("wall", 0), 2)) for h in hs],
        explanation="states = symbolic paths explored to the end, transitions = forking decisions put to the solver, "
                    "traces_validated_against_impl = concrete inputs on which the symbolic encoding and the real code were compared")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=BASE_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=viol)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


BASE_ASSUMPTIONS = [
    "floating point numbers are modelled as exact reals; rounding, overflow and nan propagation are outside the claim",
    "numpy/numba/scipy operations are trusted to compute their mathematical definition (validated on concrete inputs each run)",
]


def replay(path):
    d = json.load(open(path))
    os.environ["VERIF_TIER"] = d.get("tier", "quick")
    from symx import harness
    hs, _ = load_checks(d["property"])
    h = [x for x in hs if x.name == d["harness"]][0]
    rc = harness.RealCase(d["values"], None, h.opts)
    bad, what = harness.run_real(h, rc)
    print("replay of %s/%s: %s" % (d["property"], d["harness"], "VIOLATES: " + what if bad else "holds"))
    return 1 if bad else 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    import numpy  # noqa
    import symx.harness  # noqa
    rc = run_property(a.prop, a.only, a.jobs)
    sys.stdout.flush()
    os._exit(rc)
