"""The Gauss-Seidel solver of the rigid body simulator: sweeps, fixed points, acceptance and iteration control."""
from symx.harness import harness
from common import *
RC = "rainbow.simulators.prox_rigid_bodies.constraints"
RO = "rainbow.simulators.prox_rigid_bodies.prox_operators"
RS = "rainbow.simulators.prox_rigid_bodies.gauss_seidel_solver"
RT = "rainbow.simulators.prox_rigid_bodies.types"
NOTE = """Real arithmetic.  Sweep order/consistency: two contacts (three in the thorough tier) or two hinges with arbitrary matrices J and W J^T, right hand sides, factors, starting points; in that harness the two projections are replaced by functions of which only their arguments are known.  Fixed points and feasibility: one contact, all values.  Iteration control: up to three sweeps (thorough four) of one or two problems, whose sweeps move the iterate to arbitrary places."""


class Named:
    """a function of which nothing is known but that equal arguments give equal results"""

    def __init__(self, c, name, outs, fn):
        self.c, self.name, self.outs, self.fn, self.seen = c, name, outs, fn, []

    def __call__(self, *args):
        c = self.c
        args = [a.item() if hasattr(a, "item") and getattr(a, "shape", ()) == () and not c.sym else a for a in args]
        for old, res in self.seen:
            if all(same(x, y) for x, y in zip(old, args)):
                return res
        num = None
        if c.numeric:
            num = self.fn(*[c.ctx.num_eval(a) if hasattr(a, "n") else float(a) for a in args])
            num = list(num) if self.outs > 1 else [num]
        res = tuple(c.fresh("%s%d_%d" % (self.name, len(self.seen), i), num=None if num is None else float(num[i])) for i in range(self.outs))
        if self.outs == 1:
            res = res[0]
        self.seen.append((args, res))
        return res


def same(x, y):
    d = x - y
    return (not d.n) if hasattr(d, "n") else d == 0


def _ball(zs, zt, zu, mu, xn):
    if xn <= 0:
        return 0.0, 0.0, 0.0
    R, n = mu * xn, (zs * zs + zt * zt + zu * zu) ** 0.5
    s = 1.0 if n <= R else R / n
    return zs * s, zt * s, zu * s


def sparse(c, M):
    if not c.sym:
        import scipy.sparse as sp
        import numpy as np
        return sp.csr_matrix(np.array(M, dtype=float))
    S = c.loader.stubs["scipy.sparse"]
    return S.csr_matrix(c.array(M))


def system(c, rows, n, name=""):
    J = c.mat("J" + name, rows, n)
    W = c.mat("W" + name, n, rows)
    x = c.array([c.real("x%s%d" % (name, i), -2, 2) for i in range(rows)])
    b = c.array([c.real("b%s%d" % (name, i), -2, 2) for i in range(rows)])
    r = c.array([c.pos("r%s%d" % (name, i)) for i in range(rows)])
    return J, W, x, b, r


def response(c, J, W, x):
    """velocity change of the constraint rows caused by the impulses x"""
    return mv(c, J, mv(c, W, x))


def setup(P, c, J, W, x, b, r, K):
    P.K = K
    P.J, P.WJT = sparse(c, J), sparse(c, W)
    P.x, P.sol, P.error = copy_of(c, x), copy_of(c, x), copy_of(c, x) * 0
    P.r = copy_of(c, r)
    P.b = copy_of(c, b)
    return P


def project_contact(c, z, mu, ball):
    xn = c.np.max([0.0, z[0]])
    return [xn] + list(ball(z[1], z[2], z[3], mu, xn))


@harness("R05", "contacts.Contacts.sweep", "2 contacts (thorough 3), 3 velocity components; arbitrary J, W J^T, b, r, mu and starting impulses", minmax="define", thorough={"K": 3}, tol=1e-7)
def contact_sweep_uses_current_velocities(c):
    K = 3 if c.thorough else 2
    n = 3 if K == 2 else 2
    J, W, x, b, r = system(c, 4 * K, n)
    mu = c.array([c.real("mu%d" % k, 0, 2) for k in range(K)])
    OP = c.mod(RO)
    ball = OP.prox_sphere
    if c.sym:
        ball = Named(c, "prox", 3, _ball)
        OP.prox_sphere = ball
    P = setup(c.mod(RC).Contacts(), c, J, W, x, b, r, K)
    P.mu = copy_of(c, mu)
    P.sweep()
    want = list(x)
    for k in range(K):
        v = response(c, J, W, want)
        i = 4 * k
        z = [want[i + j] - r[i + j] * (v[i + j] + b[i + j]) for j in range(4)]
        want[i:i + 4] = project_contact(c, z, mu[k], ball)
    c.eq("impulses", P.x, want)
    c.eq("best_untouched", P.sol, x)
    c.eq("factors_untouched", P.r, r)
    c.eq("rhs_untouched", P.b, b)
    P.sol = copy_of(c, P.x)
    c.eq("velocity_change_is_the_response", P.finalize_solution(), mv(c, W, want))


@harness("R05", "post_stabilization.PostStabilization.sweep", "2 contacts, 3 velocity components, everything arbitrary", minmax="define", tol=1e-7)
def stabilisation_sweep(c):
    K, n = 2, 3
    J, W, x, b, r = system(c, 4 * K, n)
    M = c.mod(RC)
    C = M.Contacts()
    C.K, C.diag = K, copy_of(c, r)
    C.J, C.WJT = sparse(c, J), sparse(c, W)
    P = setup(M.PostStabilization(C), c, J, W, x, b, r, K)
    P.g = copy_of(c, b)
    P.sweep()
    want = list(x)
    for k in range(K):
        v = response(c, J, W, want)
        i = 4 * k
        want[i] = c.np.max([0.0, want[i] - r[i] * (v[i] + b[i])])
        want[i + 1:i + 4] = [0, 0, 0]
    c.eq("impulses", P.x, want)
    for k in range(K):
        c.ge("feasible%d" % k, P.x[4 * k], 0)
    P.sol = copy_of(c, P.x)
    c.eq("position_change_is_the_response", P.finalize_solution(), mv(c, W, want))


@harness("R05", "hinges.Hinges.sweep", "2 hinges, 3 velocity components, everything arbitrary", tol=1e-7)
def hinge_sweep(c):
    K, n = 2, 3
    J, W, x, b, r = system(c, 5 * K, n)
    P = setup(c.mod(RC).Hinges(), c, J, W, x, b, r, K)
    P.sweep()
    want = list(x)
    for k in range(K):
        v = response(c, J, W, want)
        for j in range(5 * k, 5 * k + 5):
            want[j] = want[j] - r[j] * (v[j] + b[j])
    c.eq("impulses", P.x, want)
    P.sol = copy_of(c, P.x)
    c.eq("velocity_change_is_the_response", P.finalize_solution(), mv(c, W, want))


@harness("R05", "hinges.Hinges.sweep", "one hinge, every constraint velocity, factor and impulse")
def hinge_fixed_points(c):
    v = c.array([c.real("v%d" % i, -2, 2) for i in range(5)])
    x = c.array([c.real("x%d" % i, -2, 2) for i in range(5)])
    r = c.array([c.pos("r%d" % i) for i in range(5)])
    P = setup(c.mod(RC).Hinges(), c, c.np.eye(5), c.np.zeros((5, 5)), x, v, r, 1)
    P.sweep()
    for i in range(5):
        c.prove("fixed_iff_satisfied%d" % i, c.iff(P.x[i] == x[i], v[i] == 0))


# ---- one contact: feasibility and fixed points ---------------------------------------------------
def one_contact(c, v, x, r, mu):
    P = setup(c.mod(RC).Contacts(), c, c.np.eye(4), c.np.zeros((4, 4)), x, v, r, 1)
    P.mu = c.array([mu])
    P.sweep()
    return P.x


@harness("R05", "contacts.Contacts.sweep prox_operators.prox_sphere", "one contact: every constraint velocity, impulse (feasible or not), factor and friction coefficient")
def contact_sweep_is_feasible(c):
    v = c.array([c.real("v%d" % i, -2, 2) for i in range(4)])
    x = c.array([c.real("x%d" % i, -2, 2) for i in range(4)])
    r = c.array([c.pos("r%d" % i) for i in range(4)])
    mu = c.real("mu", 0, 2)
    y = one_contact(c, v, x, r, mu)
    c.ge("normal", y[0], 0)
    c.le("cone", dot(y[1:4], y[1:4]), (mu * y[0]) * (mu * y[0]))
    # normal part: fixed exactly under complementarity
    c.prove("normal_fixed_iff_complementary", c.iff(y[0] == x[0], c.all(x[0] >= 0, v[0] >= 0, c.any(x[0] == 0, v[0] == 0))))
    # a sweep never pushes a separating, unloaded contact
    c.prove("unloaded_stays", c.implies(c.all(x[0] == 0, v[0] >= 0), y[0] == 0))


@harness("R05", "contacts.Contacts.sweep prox_operators.prox_sphere", "one contact: every state with a positive normal impulse in balance, every factor common to the friction rows", t_prove=60000)
def sliding_and_sticking_fixed_points(c):
    d = c.unit("d")                       # direction of the friction impulse
    mu, xn = c.real("mu", 0.01, 2), c.real("xn", 0.01, 2)
    kind = c.choose("state", ["sliding", "sticking"])
    rf = c.pos("rf")
    r = c.array([c.pos("rn"), rf, rf, rf])
    if kind == "sliding":
        lam = c.real("slip", 0, 3)        # slip opposite to the friction, which is at the limit
        x = c.array([xn] + [mu * xn * d[i] for i in range(3)])
        v = c.array([0] + [-lam * d[i] for i in range(3)])
    else:
        s = c.real("s", 0, 1)
        x = c.array([xn] + [mu * xn * s * d[i] for i in range(3)])
        v = c.array([0, 0, 0, 0])
    y = one_contact(c, v, x, r, mu)
    c.eq("stays", y, x)


@harness("R05", "contacts.Contacts.sweep prox_operators.prox_sphere", "one contact with positive normal impulse: every state that is not a Coulomb state moves (factor common to the friction rows)", t_prove=60000)
def only_coulomb_states_are_fixed(c):
    # friction impulse x = (a, 0, 0) in a frame turned along it, slip v = (p, q, 0): no loss of generality as the
    # projection only uses lengths (R07) and the rows are treated alike
    e = c.choose("axis", [1, 2, 3])
    o = 1 + e % 3
    mu, xn, rf = c.real("mu", 0.01, 2), c.real("xn", 0.01, 2), c.pos("rf")
    a, p, q = c.real("a", 0, 5), c.real("p", -3, 3), c.real("q", -3, 3)
    x, v = [xn, 0, 0, 0], [0, 0, 0, 0]
    x[e], v[e], v[o] = a, p, q
    y = one_contact(c, c.array(v), c.array(x), c.array([1, rf, rf, rf]), mu)
    L = mu * xn
    coulomb = c.all(a <= L, c.any(c.all(p == 0, q == 0), c.all(a == L, q == 0, p <= 0)))
    fixed = c.all(*[y[i] == x[i] for i in range(4)])
    c.prove("fixed_implies_coulomb", c.implies(fixed, coulomb))


@harness("R05", "contacts.Contacts.initialize contacts.Contacts.sweep", "a sliding contact of a free body with a fixed one, every lever arm within 0.1..2 and slip direction", t_prove=30000)
def slip_opposes_friction_with_the_factors_used(c):
    """the factors the solver itself chooses are different for the rows of one contact"""
    rs, rt = c.pos("rs"), c.pos("rt")
    mu, xn, lam = c.real("mu", 0.1, 1), c.real("xn", 0.1, 1), c.real("slip", 0.1, 1)
    T, STO, M = c.mod(RT), c.mod("rainbow.simulators.prox_rigid_bodies.state_storage"), c.mod(RC)
    e = T.Engine()
    for n in ("a", "b"):
        e.bodies[n] = T.RigidBody(n)
        e.bodies[n].idx = len(e.bodies) - 1
    a, b = e.bodies["a"], e.bodies["b"]
    a.is_fixed = True
    b.mass, b.inertia = 1, c.array([1, 1, 1])
    arm = c.real("arm", 0.1, 2)
    b.r = c.array([arm, 1, 0])
    cp = T.ContactPoint(a, b, c.array([0, 0, 0]), c.array([0, 1, 0]), 0.0)
    e.contact_points = [cp]
    s = STO.StateStorage()
    s.copy_from_engine(e)
    P = M.Contacts()
    P.initialize(0.01, s, e)
    # a Coulomb state: friction at the limit in direction (0.6, 0.8), slip the other way
    x = c.array([xn, 0.6 * mu * xn, 0.8 * mu * xn, 0]) if not c.sym else c.array([xn, mu * xn * 3 / 5, mu * xn * 4 / 5, 0])
    v = c.array([0, -lam * 3 / 5, -lam * 4 / 5, 0])
    y = one_contact(c, v, x, copy_of(c, P.r), mu)
    c.eq("coulomb_state_stays", y, x)


# ---- iteration control -------------------------------------------------------------------------
def _problem(c, name, d, log, given=None):
    """a problem whose sweep goes anywhere"""
    Problem = c.mod(RC).Problem

    class Any(Problem):
        def initialize(self, dt, state, engine):
            pass

        def finalize_solution(self):
            return self.sol

        def sweep(self):
            k = len(log[name])
            if k > 9:
                raise RuntimeError("runaway iteration")
            to = [c.real("%s%d_%d" % (name, k, i), -3, 3) for i in range(d)] if given is None else [given[k]] * d
            log[name].append((copy_of(c, self.x), to))
            for i in range(d):
                self.x[i] = to[i]
    P = Any(name)
    P.x, P.sol, P.error = (c.np.zeros(d) for _ in range(3))
    P.r = c.np.ones(d)
    return P


def maxabs(c, u, v):
    (a,), (b,) = u, v
    return c.np.abs(a - b)


@harness("R05", "gauss_seidel_solver.solve problem.Problem.accept_iterate problem.Problem.rollback_iterate problem.Problem.compute_merit_value problem.Problem.change_r_factors", "1..2 problems of one unknown, at most 3 sweeps each (thorough 4), every sweep result and every tolerance", thorough={"n": 4}, t_branch=500, max_paths=6000, time=500, abs="define", minmax="define")
def iteration_control(c):
    np_ = c.choose("problems", [1, 2])
    n = c.choose("limit", ([0, 1, 2, 3] + ([4] if c.thorough else [])) if np_ == 1 else [1, 2])
    prof = c.choose("profiling", [False, True]) if (np_, n) in ((1, 1), (1, 2), (2, 1)) else False
    _control(c, np_, n, prof)


@harness("R05", "gauss_seidel_solver.solve problem.Problem.accept_iterate problem.Problem.rollback_iterate problem.Problem.compute_merit_value problem.Problem.change_r_factors", "a problem of one unknown before or after one that keeps improving (fixed changes 1000, 500, 250, ... or 1, 1/2, 1/4, ...), at most 3 sweeps (thorough 4), every sweep result", thorough={"n": 4}, t_branch=500, max_paths=6000, time=500, abs="define", minmax="define")
def iteration_control_beside_another(c):
    scale, first = c.choose("companion", [(1000, False), (1, False), (1, True)])
    _control(c, 2, c.choose("limit", [3] + ([4] if c.thorough and scale == 1000 else [])), False, companion=[scale * x / 8 for x in (8, 12, 14, 15)], first=first)


def _control(c, np_, n, prof, companion=None, first=False):
    T, G = c.mod(RT), c.mod(RS)
    e = T.Engine()
    p = e.params
    p.max_iterations = n
    p.absolute_tolerance, p.relative_tolerance = c.real("abs", 0.0001, 1), c.real("rel", 0.0001, 1)
    p.too_small_merit_change = c.real("small", 0.0001, 1)
    down, up = p.nu_reduce, p.nu_increase
    log = {}
    P = []
    for i in range(np_):
        log["p%d" % i] = []
        P.append(_problem(c, "p%d" % i, 1, log, companion if i == (0 if first else 1) else None))
    out = {}
    G.solve(e, P, out, prof, "")
    ran = len(log["p0"])
    c.prove("iteration_limit", ran <= n)
    c.prove("all_problems_swept_alike", all(len(l) == ran for l in log.values()))
    stopped = None
    last_g = None
    state = [dict(best=[0], merit=None, r=c.array([1.0])[0]) for _ in P]
    for it in range(ran):
        g = 0
        for i, q in enumerate(state):
            start, to = log["p%d" % i][it]
            c.eq("starts_from_best%d_%d" % (i, it), start, q["best"])
            m = maxabs(c, to, q["best"])
            if q["merit"] is not None and bool(m > q["merit"]):
                q["r"] = q["r"] * down                       # rejected: rolled back, factor reduced
                used = q["merit"]
            else:
                if q["merit"] is not None and bool(q["merit"] - m < p.too_small_merit_change):
                    q["r"] = q["r"] * up
                q["merit"], q["best"] = m, to
                used = m
            g = c.np.maximum(g, used)
        done = bool(g < p.absolute_tolerance)
        if not done and last_g is not None:
            done = bool(abs(g - last_g) < p.relative_tolerance * last_g)
        c.prove("stops_exactly_when_converged%d" % it, done == (it == ran - 1) or (it == ran - 1 and ran == n))
        last_g = g
    for i, q in enumerate(state):
        c.eq("best_is_returned%d" % i, P[i].sol, q["best"])
        c.eq("iterate_is_best%d" % i, P[i].x, q["best"])
        c.eq("factor%d" % i, P[i].r, [q["r"]])
        c.prove("factor_positive%d" % i, P[i].r[0] > 0)
    if prof:
        c.prove("exit_code", (out["exitcode"] == 0) == (ran == n and not (n and done)))


@harness("R05", "problem.Problem.compute_merit_value problem.Problem.accept_iterate problem.Problem.rollback_iterate problem.Problem.change_r_factors", "vectors of 4 unknowns, all values")
def merit_and_rollback(c):
    log = {"p": []}
    P = _problem(c, "p", 4, log)
    x, s = c.array([c.real("x%d" % i, -3, 3) for i in range(4)]), c.array([c.real("s%d" % i, -3, 3) for i in range(4)])
    rate = c.pos("rate")
    P.x, P.sol = copy_of(c, x), copy_of(c, s)
    m = P.compute_merit_value()
    for i in range(4):
        c.ge("merit_bounds%d" % i, m, abs(x[i] - s[i]))
    slack = 0 if c.sym else 1e-12
    c.prove("merit_attained", c.any(*[abs(m - abs(x[i] - s[i])) <= slack for i in range(4)]))
    c.eq("x_kept", P.x, x)
    c.eq("sol_kept", P.sol, s)
    P.change_r_factors(rate)
    c.eq("factors", P.r, [rate] * 4)
    if c.choose("outcome", ["accept", "reject"]) == "accept":
        P.accept_iterate()
        want = x
    else:
        P.rollback_iterate()
        want = s
    c.eq("x", P.x, want)
    c.eq("sol", P.sol, want)
    P.x[0] = 77                            # later sweeps must not reach into the stored best solution
    c.eq("own_storage", P.sol, want)
