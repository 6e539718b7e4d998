"""Proximal contact solvers: sequential, coloured parallel, Jacobi and hybrid sweeps; fixed points; acceptance; dispatch."""
import os
os.environ["NUMBA_DISABLE_JIT"] = "1"      # replays run the Python source of the parallel workers, not their compiled form
from symx.harness import harness
from common import *
from R05 import Named, _ball, sparse, system, response, project_contact
PS = "rainbow.simulators.proximal_contact.prox_solvers"
GS = "rainbow.simulators.proximal_contact.gauss_seidel_solver"
JS = "rainbow.simulators.proximal_contact.jacobi_solver"
SI = "rainbow.simulators.proximal_contact.solver_interface"
PO = "rainbow.simulators.proximal_contact.proximal_operators"
NOTE = """Real arithmetic; the numba workers are read as the Python they are written in, with their parallel loop run in the given and in the reversed order (iterations of one loop must not read what others write).  Sweep order: two or three contacts with arbitrary J, W J^T, right hand side, factors, friction coefficients and start; the friction projection is a function of which only its arguments are known.  Feasibility and fixed points: one contact, all values.  Iteration control: up to three sweeps with arbitrary results."""
SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]
CLASSES = {"gauss_seidel": (GS, "GaussSeidelSolver"), "parallel_gauss_seidel": (GS, "ParallelGaussSeidelSolver"),
           "parallel_jacobi": (JS, "ParallelJacobiSolver"), "parallel_jacboi_hybrid": (JS, "ParallelJacobiHybridSolver")}
# pairs of bodies in contact
SCENES = {"chain": [(0, 1), (1, 2), (2, 3)], "apart": [(0, 1), (2, 3), (4, 5)], "last_two": [(0, 1), (2, 3), (3, 4)],
          "hub": [(0, 1), (2, 3), (1, 3)], "all": [(0, 1), (0, 2), (1, 2)]}


class _Thing:
    def __init__(self, **k):
        self.__dict__.update(k)


def world(c, pairs):
    bodies = [_Thing(idx=i) for i in range(1 + max(max(p) for p in pairs))]
    e = _Thing(contact_points=[_Thing(bodyA=bodies[a], bodyB=bodies[b]) for a, b in pairs], simulator_type="rigid_body")
    e.params = _Thing(max_iterations=10, absolute_tolerance=1e-6, relative_tolerance=1e-6, nu_reduce=0.5, nu_increase=1.1, too_small_merit_change=0.1)
    return e


def solver(c, scheme, J, W, b, mu, fn, e, debug=False):
    m, n = CLASSES[scheme]
    return getattr(c.mod(m), n)(sparse(c, J), sparse(c, W), copy_of(c, b), copy_of(c, mu), fn, e, {}, debug, "p_")


def order(c, reverse):
    if c.sym and reverse:
        c.loader.stubs["numba"].prange = lambda *a: list(range(*a))[::-1]


def ball(c):
    return Named(c, "prox", 3, _ball) if c.sym else c.mod(PO).prox_sphere


def local(c, x, v, b, r, mu, k, fn, xn=None):
    i = 4 * k
    z = [x[i + j] - r[i + j] * (v[i + j] + b[i + j]) for j in range(4)]
    n = c.np.max([0.0, z[0]])
    return [n] + list(fn(z[1], z[2], z[3], mu[k], n if xn is None else xn))


def coloured(pairs):
    """a set of contacts in each group may not share a body; groups in the order of their first contact"""
    import networkx as nx
    G = nx.Graph()
    G.add_nodes_from(range(len(pairs)))
    G.add_edges_from((i, j) for i in range(len(pairs)) for j in range(i) if set(pairs[i]) & set(pairs[j]))
    col = nx.coloring.greedy_color(G)
    groups = {}
    for k in range(len(pairs)):
        groups.setdefault(col[k], []).append(k)
    return list(groups.values())


@harness("R06", "GaussSeidelSolver.sweep", "2 contacts (thorough 3), 3 velocity components, everything arbitrary", minmax="define", tol=1e-7)
def gauss_seidel_sweep(c):
    K, n = (3, 2) if c.thorough else (2, 3)
    J, W, x, b, r = system(c, 4 * K, n)
    mu = c.array([c.real("mu%d" % k, 0, 2) for k in range(K)])
    fn = ball(c)
    S = solver(c, "gauss_seidel", J, W, b, mu, fn, world(c, SCENES["all"][:K]))
    S.x, S.r = copy_of(c, x), copy_of(c, r)
    S.sweep()
    want = list(x)
    for k in range(K):
        want[4 * k:4 * k + 4] = local(c, want, response(c, J, W, want), b, r, mu, k, fn)
    c.eq("impulses", S.x, want)
    c.eq("factors_untouched", S.r, r)
    c.eq("rhs_untouched", S.b, b)


@harness("R06", "ParallelGaussSeidelSolver.sweep gauss_seidel_solver.sweep_worker blocking.build_contact_graph blocking.greedy_graph_coloring", "3 contacts in 5 ways of sharing bodies, 2 velocity components, J, W J^T, b, r, mu and start arbitrary; parallel loop in both orders", minmax="define", tol=1e-7)
def coloured_sweep_sees_all_earlier_groups(c):
    pairs = SCENES[c.choose("scene", sorted(SCENES))]
    order(c, c.choose("order", [0, 1]))
    K, n = 3, 2
    J, W, x, b, r = system(c, 4 * K, n)
    mu = c.array([c.real("mu%d" % k, 0, 2) for k in range(K)])
    fn = ball(c)
    S = solver(c, "parallel_gauss_seidel", J, W, b, mu, fn, world(c, pairs))
    S.x, S.r = copy_of(c, x), copy_of(c, r)
    S.sweep()
    want = list(x)
    for g in coloured(pairs):
        v, new = response(c, J, W, want), list(want)
        for k in g:
            new[4 * k:4 * k + 4] = local(c, want, v, b, r, mu, k, fn)
        want = new
    c.eq("impulses", S.x, want)
    c.eq("factors_untouched", S.r, r)


@harness("R06", "ParallelJacobiSolver.sweep ParallelJacobiHybridSolver.sweep jacobi_solver.sweep_worker", "2 contacts (thorough 3), everything arbitrary; parallel loop in both orders", minmax="define", tol=1e-7)
def jacobi_sweep(c):
    scheme = c.choose("scheme", SCHEMES[2:])
    order(c, c.choose("order", [0, 1]))
    K, n = (3, 2) if c.thorough else (2, 3)
    J, W, x, b, r = system(c, 4 * K, n)
    mu = c.array([c.real("mu%d" % k, 0, 2) for k in range(K)])
    fn = ball(c)
    S = solver(c, scheme, J, W, b, mu, fn, world(c, SCENES["all"][:K]))
    S.x, S.r = copy_of(c, x), copy_of(c, r)
    S.sweep()
    v, want = response(c, J, W, x), list(x)
    for k in range(K):
        want[4 * k:4 * k + 4] = local(c, x, v, b, r, mu, k, fn, xn=x[4 * k] if scheme == "parallel_jacobi" else None)
    c.eq("impulses", S.x, want)
    c.eq("factors_untouched", S.r, r)


@harness("R06", "sweep of the four solvers", "3 contacts in a chain or around a hub, arbitrary J, W J^T, r, mu; right hand side such that the start solves the problem; both loop orders", tol=1e-7)
def solutions_stay_with_every_scheme(c):
    scheme = c.choose("scheme", SCHEMES)
    pairs = SCENES[c.choose("scene", ["chain", "hub"])]
    if scheme != "gauss_seidel":
        order(c, c.choose("order", [0, 1]))
    K, n = 3, 2
    J, W, x, b, r = system(c, 4 * K, n)
    mu = c.array([c.real("mu%d" % k, 0, 2) for k in range(K)])
    load = c.choose("state", [0, 1])
    fn, target = ball(c), []
    for k in range(K):
        i = 4 * k
        if (k + load) % 2:
            x[i] = c.pos("n%d" % k)
            target += [0]
        else:
            x[i] = 0
            target += [c.pos("gap%d" % k)]
        slip = [c.real("slip%d_%d" % (k, j), -1, 1) for j in range(3)]
        if c.sym:                         # the friction projection at the solution gives the friction impulse
            fn.seen.append(([x[i + 1 + j] - r[i + 1 + j] * slip[j] for j in range(3)] + [mu[k], x[i]], (x[i + 1], x[i + 2], x[i + 3])))
            target += slip
        elif (k + load) % 2:              # sticking inside the cone / unloaded
            L = (x[i + 1] ** 2 + x[i + 2] ** 2 + x[i + 3] ** 2) ** 0.5
            if L > mu[k] * x[i]:
                x[i + 1:i + 4] = x[i + 1:i + 4] * (mu[k] * x[i] / L * 0.9)
            target += [0, 0, 0]
        else:
            x[i + 1:i + 4] = 0
            target += [0.3, -0.2, 0.1]
    v = response(c, J, W, x)
    b = c.array([target[i] - v[i] for i in range(4 * K)])
    S = solver(c, scheme, J, W, b, mu, fn, world(c, pairs))
    S.x, S.r = copy_of(c, x), copy_of(c, r)
    S.sweep()
    c.eq("change", [S.x[i] - x[i] for i in range(4 * K)], [0] * (4 * K))


def one_contact(c, scheme, v, x, r, mu):
    S = solver(c, scheme, c.np.eye(4), c.np.zeros((4, 4)), c.array(v), c.array([mu]), c.mod(PO).prox_sphere, world(c, [(0, 1)]))
    S.x, S.r = copy_of(c, c.array(x)), c.array(r)
    S.sweep()
    return S.x


@harness("R06", "sweep of the four solvers, proximal_operators.prox_sphere", "one contact: every constraint velocity, impulse, factor and friction coefficient")
def iterates_are_feasible(c):
    scheme = c.choose("scheme", SCHEMES)
    v = [c.real("v%d" % i, -2, 2) for i in range(4)]
    x = [c.real("x%d" % i, -2, 2) for i in range(4)]
    r = [c.pos("r%d" % i) for i in range(4)]
    mu = c.real("mu", 0, 2)
    y = one_contact(c, scheme, v, x, r, mu)
    c.ge("normal", y[0], 0)
    n = c.np.max([0.0, x[0]]) if scheme == "parallel_jacobi" else y[0]
    c.le("cone", dot(y[1:4], y[1:4]), (mu * n) * (mu * n))
    c.prove("normal_fixed_iff_complementary", c.iff(y[0] == x[0], c.all(x[0] >= 0, v[0] >= 0, c.any(x[0] == 0, v[0] == 0))))


@harness("R06", "sweep of the four solvers, proximal_operators.prox_sphere", "one contact with positive normal impulse and one factor for its friction rows", t_prove=60000)
def fixed_exactly_at_coulomb_states(c):
    scheme = c.choose("scheme", SCHEMES)
    e = c.choose("axis", [1, 2, 3])
    o = 1 + e % 3
    mu, xn, rf = c.real("mu", 0.01, 2), c.real("xn", 0.01, 2), c.pos("rf")
    a, p, q = c.real("a", 0, 5), c.real("p", -3, 3), c.real("q", -3, 3)
    x, v = [xn, 0, 0, 0], [0, 0, 0, 0]
    x[e], v[e], v[o] = a, p, q
    y = one_contact(c, scheme, v, x, [1, rf, rf, rf], mu)
    L = mu * xn
    coulomb = c.all(a <= L, c.any(c.all(p == 0, q == 0), c.all(a == L, q == 0, p <= 0)))
    fixed = c.all(*[y[i] == x[i] for i in range(4)])
    c.prove("fixed_implies_coulomb", c.implies(fixed, coulomb))
    if c.sym:
        c.prove("coulomb_implies_fixed", c.implies(coulomb, fixed))


@harness("R06", "SolverInterface.compute_initial_r_factor", "two contacts, arbitrary J and W J^T")
def initial_factors(c):
    J, W = c.mat("J", 8, 2), c.mat("W", 2, 8)
    S = solver(c, c.choose("scheme", SCHEMES), J, W, c.np.zeros(8), c.np.zeros(2), None, world(c, [(0, 1), (1, 2)]))
    d = [dot([J[i][k] for k in range(2)], [W[k][i] for k in range(2)]) for i in range(8)]
    case = c.choose("row", ["none", "free"])
    if case == "free":
        for k in range(2):
            J[3][k] = 0
        d[3] = 1
        S = solver(c, "gauss_seidel", J, W, c.np.zeros(8), c.np.zeros(2), None, world(c, [(0, 1), (1, 2)]))
    for i in range(8):
        if not (case == "free" and i == 3):
            c.assume(d[i] >= 0.01)
    S.compute_initial_r_factor()
    for i in range(8):
        c.eq("factor%d" % i, S.r[i] * d[i], 0.1 if not c.sym else c.array([1])[0] / 10)
        c.prove("positive%d" % i, S.r[i] > 0)


# ---- iteration control ---------------------------------------------------------------------------
@harness("R06", "SolverInterface.solve SolverInterface.check_convergence SolverInterface.update_r_factor_and_handle_sol_state SolverInterface.initialize_stats", "one contact, limits 0..3 (thorough 4), every result of a sweep along one impulse component, every tolerance", abs="define", minmax="define", t_branch=500, time=500)
def iteration_control(c):
    n = c.choose("limit", [0, 1, 2, 3] + ([4] if c.thorough else []))
    debug = c.choose("debug", [False, True])
    e = world(c, [(0, 1)])
    p = e.params
    p.max_iterations = n
    p.absolute_tolerance, p.relative_tolerance = c.real("abs", 0.0001, 1), c.real("rel", 0.0001, 1)
    p.too_small_merit_change = c.real("small", 0.0001, 1)
    log, comp = [], c.choose("component", [0, 3])
    Base = c.mod(SI).SolverInterface

    class Any(Base):
        def sweep(self):
            if len(log) > 9:
                raise RuntimeError("runaway iteration")
            to = [0, 0, 0, 0]
            to[comp] = c.real("s%d" % len(log), -3, 3)
            log.append((copy_of(c, self.x), to, copy_of(c, self.r)))
            for i in range(4):
                self.x[i] = to[i]
    stats = {}
    eye = sparse(c, c.np.eye(4))
    S = Any(eye, eye, c.np.zeros(4), c.np.zeros(1), None, e, stats, debug, "p_")
    sol, st = S.solve()
    c.prove("iteration_limit", len(log) <= n)
    c.prove("same_stats_object", st is stats)
    best, merit, r = [0, 0, 0, 0], None, c.array([1.0])[0] / 10
    done = False
    for it, (start, to, used) in enumerate(log):
        c.eq("starts_from_accepted%d" % it, start, best)
        c.eq("factor%d" % it, used, [r] * 4)
        m = c.np.abs(to[comp] - best[comp])
        done = bool(m < p.absolute_tolerance) or (merit is not None and bool(c.np.abs(m - merit) < p.relative_tolerance * merit))
        c.prove("stops_exactly_when_converged%d" % it, done == (it == len(log) - 1) or (it == len(log) - 1 == n - 1))
        if done:
            break
        if merit is not None and bool(m > merit):
            r = r * p.nu_reduce
        else:
            if merit is not None and bool(merit - m < p.too_small_merit_change):
                r = r * p.nu_increase
            merit, best = m, to
        if debug:
            c.eq("recorded%d" % it, stats["p_residuals"][it], m)
            c.eq("recorded_impulses%d" % it, stats["p_lambda"][it], to)
    c.eq("accepted_is_returned", sol, best)
    c.prove("factor_positive", S.r[0] > 0)
    if debug:
        c.prove("exit_code", (stats["p_exitcode"] == 0) == (not done))
        c.prove("iterations", stats["p_iterations"] == (len(log) - 1 if done else n))


@harness("R06", "prox_solvers.solve", "the four schemes and an unknown name, one contact, arbitrary data; 1 iteration", minmax="define", may_be_empty=True)
def dispatch(c):
    M = c.mod(PS)
    scheme = c.choose("scheme", SCHEMES + ["unknown"])
    J, W, x, b, r = system(c, 4, 2)
    mu = c.array([c.real("mu", 0, 2)])
    e = world(c, [(0, 1)])
    if scheme == "unknown":
        try:
            M.solve(sparse(c, J), sparse(c, W), b, mu, c.mod(PO).prox_sphere, e, {}, False, scheme="jacobi")
        except NotImplementedError:
            return
        c.fail("unknown scheme accepted")
        return
    seen = []
    for s in SCHEMES:
        m, n = CLASSES[s]

        def init(self, *a, s=s):
            seen.append((s, a))
            self.a = a
        cls = type(n, (), dict(__init__=init, solve=lambda self: ("result", self.a[6])))
        c.patch(M, n, cls)
    args = [sparse(c, J), sparse(c, W), b, mu, c.mod(PO).prox_sphere, e, {}, True]
    own = c.choose("prefix", ["", "mine"])
    out = M.solve(*args, prefix=own, scheme=scheme)
    c.prove("one_solver_of_the_scheme", len(seen) == 1 and seen[0][0] == scheme)
    c.prove("arguments_in_order", all(x is y for x, y in zip(seen[0][1], args)))
    c.prove("prefix", seen[0][1][8] == (own if own else scheme + "_"))
    c.prove("returned", out[0] == "result" and out[1] is args[6])
