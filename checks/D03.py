"""Time stepping of deformable bodies: state vectors, prescribed nodes, fixed bodies, contact impulses, position correction."""
from symx.harness import harness
from common import *
from R05 import sparse
from D02 import MESHES, T_of, nodes, arb
SO = "rainbow.simulators.prox_soft_bodies.solver"
ST = "rainbow.simulators.prox_soft_bodies.types"
CD = "rainbow.simulators.prox_soft_bodies.collision_detection"
PX = "rainbow.simulators.proximal_contact.proximal_operators"
NOTE = """Real arithmetic.  Worlds of one to three bodies with one to three nodes each, every state, every choice of prescribed nodes and fixed bodies among those listed; inverse mass matrix, forces, contact rows and contact impulses are arbitrary (their own properties are D02, R03, R06)."""
WORLDS = {"one": [2], "two": [2, 1], "three": [1, 2, 1]}


def world(c, sizes, dirichlet=(), fixed=()):
    """bodies a, b, .. ; dirichlet: global node numbers"""
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    TY = c.mod(ST)
    e = TY.Engine()
    off = 0
    for i, n in enumerate(sizes):
        b = TY.SoftBody("abc"[i])
        b.idx, b.offset = i, off
        e.bodies[b.name] = b
        b.x, b.u = nodes(c, "x" + b.name, n), nodes(c, "u" + b.name, n)
        b.is_fixed = i in fixed
        for k in range(n):
            if off + k in dirichlet:
                b.dirichlet_conditions.append(TY.DirichletCondition(k, c.vec("d%d" % (off + k))))
        off += n
    e.number_of_nodes = off
    return e


def rows(c, e, f):
    return [[v for v in r] for b in e.bodies.values() for r in getattr(b, f)]


@harness("D03", "solver.get_position_vector solver.get_velocity_vector solver.set_position_vector solver.set_velocity_vector", "1..3 bodies of 1..2 nodes, every state")
def state_vectors(c):
    S = c.mod(SO)
    e = world(c, WORLDS[c.choose("world", sorted(WORLDS))])
    x, u = rows(c, e, "x"), rows(c, e, "u")
    X, U = S.get_position_vector(e), S.get_velocity_vector(e)
    c.eq("positions", X, x)
    c.eq("velocities", U, u)
    for b in e.bodies.values():            # the gathered vectors are copies
        b.x[0][0] = 7
    c.eq("own_storage", X, x)
    n = len(x)
    Y, V = nodes(c, "Y", n), nodes(c, "V", n)
    S.set_position_vector(Y, e)
    S.set_velocity_vector(V, e)
    for b in e.bodies.values():
        c.eq("position_of_" + b.name, b.x, Y[b.offset:b.offset + len(b.x)])
        c.eq("velocity_of_" + b.name, b.u, V[b.offset:b.offset + len(b.x)])
    c.eq("round_trip_x", S.get_position_vector(e), Y)
    c.eq("round_trip_u", S.get_velocity_vector(e), V)


SETUPS = {"free": ((), ()), "node": ((1,), ()), "nodes": ((0, 2), ()), "fixed_first": ((), (0,)), "fixed_last": ((1,), (1,))}


def held(e, setup, sizes):
    """global node -> ('position', value) of a prescribed node or ('fixed',)"""
    out, off = {}, 0
    for i, b in enumerate(e.bodies.values()):
        for k in range(sizes[i]):
            if b.is_fixed:
                out[off + k] = None
        for d in b.dirichlet_conditions:
            out[off + d.idx] = [v for v in d.value]
        off += sizes[i]
    return out


@harness("D03", "solver.SemiImplicitStepper.step solver.apply_boundary_conditions_on_positions solver.apply_boundary_conditions_on_velocities", "two bodies of 2 and 1 nodes in 5 set-ups of prescribed nodes and fixed bodies; every state, force, time step, inverse mass matrix; with and without (one) contact with arbitrary rows and impulses", time=300)
def one_step(c):
    S, CDm, P = c.mod(SO), c.mod(CD), c.mod(PX)
    sizes = WORLDS["two"]
    setup = c.choose("setup", sorted(SETUPS))
    e = world(c, sizes, *SETUPS[setup])
    touch = c.choose("contacts", [0, 1])
    dbg = c.choose("debug", [False, True]) if setup == "node" else False
    hold = held(e, setup, sizes)
    n = sum(sizes)
    x, u = rows(c, e, "x"), rows(c, e, "u")
    dt = c.real("dt", 0.001, 1)
    W = c.mat("W", 3 * n, 3 * n)
    F = {k: nodes(c, k, n) for k in ("Fe", "Ft", "Fd", "Fx")}
    got = {}
    c.patch(S, "compute_inverse_mass_matrix", lambda *a: sparse(c, W))
    c.patch(S, "compute_elastic_forces", lambda x, *a: (got.__setitem__("elastic", copy_of(c, x)), F["Fe"])[1])
    c.patch(S, "compute_traction_forces", lambda x, *a: (got.__setitem__("traction", copy_of(c, x)), F["Ft"])[1])
    c.patch(S, "compute_damping_forces", lambda u, *a: (got.__setitem__("damping", copy_of(c, u)), F["Fd"])[1])
    c.patch(S, "compute_external_forces", lambda *a: F["Fx"])
    J = c.mat("J", 4, 3 * n)
    sol = c.array(arb(c, "impulse", 4))

    def detect(engine, stats, debug):
        got["detect"] = engine is e
        engine.contact_points = ["contact"] * touch
        return stats
    c.patch(CDm, "run_collision_detection", detect)
    c.patch(S, "compute_jacobian_matrix", lambda *a: sparse(c, J))
    c.patch(S, "get_friction_coefficient_vector", lambda *a: "mu")

    def solve(J_, WJT, b, mu, fn, engine, stats, debug, prefix="", scheme="gauss_seidel"):
        got["solve"] = (J_, WJT, b, mu, fn, scheme)
        return sol, stats
    c.patch(S.CONTACT_SOLVERS, "solve", solve)
    for k in ("compute_kinetic_energy", "compute_potential_energy", "compute_elastic_energy", "get_largest_penetration_error"):
        c.patch(S, k, lambda *a: 0)
    e.params.proximal_solver = c.choose("scheme", ["gauss_seidel", "parallel_jacobi"]) if touch else "gauss_seidel"
    st = S.SemiImplicitStepper(e, dbg)
    stamp = e.params.time_stamp
    st.step(dt, e, dbg)
    # ---- what the step must have done
    for i, v in hold.items():
        u[i] = [0, 0, 0]
        if v is not None:
            x[i] = v
    for k in ("elastic", "traction"):
        free = [i for i in range(n)]
        c.eq(k + "_at_current_positions", [got[k][i] for i in free], [x[i] for i in free])
    c.eq("damping_at_current_velocities", got["damping"], u)
    f = [[sum(F[k][i][j] for k in F) for j in range(3)] for i in range(n)]
    flat = [f[i][j] for i in range(n) for j in range(3)]
    pred = [u[i // 3][i % 3] + dt * sum(W[i][k] * flat[k] for k in range(3 * n)) for i in range(3 * n)]
    c.prove("collision_detection", got["detect"])
    c.prove("solver_called", ("solve" in got) == bool(touch))
    push = [0] * (3 * n)
    if touch:
        J_, WJT, b, mu, fn, scheme = got["solve"]
        WJ = [[sum(W[i][k] * J[r][k] for k in range(3 * n)) for r in range(4)] for i in range(3 * n)]
        c.eq("rows", J_.toarray(), J)
        c.eq("response", WJT.toarray(), WJ)
        if not hold:
            c.eq("approach_velocity", b, [sum(J[r][k] * pred[k] for k in range(3 * n)) for r in range(4)])
        c.prove("friction_and_scheme", mu == "mu" and fn is P.prox_sphere and scheme == e.params.proximal_solver)
        push = [sum(WJ[i][r] * sol[r] for r in range(4)) for i in range(3 * n)]
    new = [[pred[3 * i + k] + push[3 * i + k] for k in range(3)] for i in range(n)]
    for i in hold:
        new[i] = [0, 0, 0]
    pos = [[x[i][k] + dt * new[i][k] for k in range(3)] for i in range(n)]
    U, X = rows(c, e, "u"), rows(c, e, "x")
    for i in range(n):
        what = "free" if i not in hold else "fixed" if hold[i] is None else "prescribed"
        c.eq("velocity_%s%d" % (what, i), U[i], new[i])
        c.eq("position_%s%d" % (what, i), X[i], pos[i])
    c.prove("shapes", all(b.x.shape == b.u.shape == (sizes[i], 3) for i, b in enumerate(e.bodies.values())))
    c.prove("time_stamp", e.params.time_stamp == stamp + 1)
    if dbg:
        c.eq("logged", [st.log[-1]["dt"], st.log[-1]["contact_points"]], [dt, touch])


@harness("D03", "solver.apply_post_stabilization", "two bodies of 2 and 1 nodes, 5 set-ups, 1..2 contacts with every gap; arbitrary rows, response and solution", time=300)
def position_correction(c):
    S, TY, P = c.mod(SO), c.mod(ST), c.mod(PX)
    sizes = WORLDS["two"]
    setup = c.choose("setup", sorted(SETUPS))
    e = world(c, sizes, *SETUPS[setup])
    hold = held(e, setup, sizes)
    n, K = sum(sizes), c.choose("contacts", [1, 2])
    gaps = [c.real("gap%d" % k, -0.1, 0.1) for k in range(K)]
    a = e.bodies["a"]
    e.contact_points = [TY.ContactPoint(a, e.bodies["b"], 0, 0, [1, 0, 0, 0], [1, 0, 0, 0], c.array([0, 0, 0]), c.array([0, 1, 0]), g) for g in gaps]
    for b in e.bodies.values():            # prescribed nodes are at their place already
        for d in b.dirichlet_conditions:
            b.x[d.idx] = d.value
    J, WJT = c.mat("J", 4 * K, 3 * n), c.mat("R", 3 * n, 4 * K)
    x = rows(c, e, "x")
    u = rows(c, e, "u")
    sol = c.array(arb(c, "impulse", 4 * K))
    got = []

    def solve(*a, prefix="", scheme="gauss_seidel"):
        got.append((a, scheme))
        return sol, a[6]
    c.patch(S.CONTACT_SOLVERS, "solve", solve)
    stats = {"old": 1}
    out = S.apply_post_stabilization(sparse(c, J), sparse(c, WJT), e, stats, False)
    deep = [g < -e.params.min_gap_value for g in gaps]
    c.prove("runs_iff_something_penetrates", c.iff(c.any(*deep), bool(got)))
    c.prove("returns_stats", out is stats)
    d = [0] * (3 * n)
    if got:
        b, mu, fn = got[0][0][2], got[0][0][3], got[0][0][4]
        c.prove("sizes", b.shape == (4 * K,) and mu.shape == (K,))
        for k in range(K):
            for j in range(4):
                c.prove("right_hand_side%d_%d" % (k, j), b[4 * k + j] == 0 if j else c.any(c.all(deep[k], b[4 * k] == gaps[k]), c.all(c.no(deep[k]), b[4 * k] == 0)))
        c.prove("no_friction", fn is P.prox_origin)
        d = [sum(WJT[i][r] * sol[r] for r in range(4 * K)) for i in range(3 * n)]
    X = rows(c, e, "x")
    for i in range(n):
        c.eq("node%d" % i, X[i], x[i] if i in hold else [x[i][k] + d[3 * i + k] for k in range(3)])
    c.eq("velocities_untouched", rows(c, e, "u"), u)


@harness("D03", "solver.compute_inverse_mass_matrix", "two bodies of one element each, lumped, every density and volume", time=300)
def inverse_mass(c):
    S, TY = c.mod(SO), c.mod(ST)
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    e = TY.Engine()
    m = []
    for i in range(2):
        b = TY.SoftBody("ab"[i])
        b.offset, b.T = 4 * i, T_of(c, [[0, 1, 2, 3]])
        rho, vol = c.pos("rho%d" % i), c.pos("vol%d" % i)
        b.M_array = S.Native.compute_mass_element_array(rho, c.array([vol]), b.T, True)
        e.bodies[b.name] = b
        m += [rho * vol / 4] * 12
    e.number_of_nodes = 8
    if c.sym:
        def inv(M):
            A = M.toarray()
            for i in range(24):
                for j in range(24):
                    c.eq("diagonal_mass", A[i][j], m[i] if i == j else 0)
            return c.loader.stubs["scipy.sparse"].csr_matrix(c.array([[1 / m[i] if i == j else 0 for j in range(24)] for i in range(24)]))
        c.loader.stubs["scipy.sparse"].linalg.inv = inv
    W = S.compute_inverse_mass_matrix(e, {}, False).toarray()
    for i in range(24):
        c.eq("inverse%d" % i, W[i][i] * m[i], 1)
