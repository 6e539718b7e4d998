"""Contact constraints of the rigid simulator (Jacobian rows, right-hand sides, impulse response)."""
from symx.harness import harness
from common import *
from R02 import make_body, engine_of
TY = "rainbow.simulators.prox_rigid_bodies.types"
SS = "rainbow.simulators.prox_rigid_bodies.state_storage"
CO = "rainbow.simulators.prox_rigid_bodies.constraints.contacts"
PS = "rainbow.simulators.prox_rigid_bodies.constraints.post_stabilization"
NOTE = """Real arithmetic. Up to three bodies and three contacts, arbitrary positions, velocities, unit normals, materials and parameters."""


def contact_points(c, T, bodies, touching, frames=None):
    cps = []
    for k, (i, j) in enumerate(touching):
        n = c.unit("n%d" % k) if frames is None else c.array(frames[k])
        cps.append(T.ContactPoint(bodies[i], bodies[j], c.vec("p%d" % k), n, c.real("gap%d" % k, -1, 1)))
    return cps


def relative_velocity(c, cp, u):
    """velocity of B's material point at the contact relative to A's, and the relative spin"""
    A, B = cp.bodyA, cp.bodyB
    def point(body):
        v, w = u[6 * body.idx:6 * body.idx + 3], u[6 * body.idx + 3:6 * body.idx + 6]
        x = [cp.p[i] - body.r[i] for i in range(3)]
        wx = cross(c, w, x)
        return [v[i] + wx[i] for i in range(3)], w
    vB, wB = point(B)
    vA, wA = point(A)
    return [vB[i] - vA[i] for i in range(3)], [wB[i] - wA[i] for i in range(3)]


TOUCH = [((0, 1),), ((1, 0),), ((0, 2), (1, 0)), ((2, 1), (0, 1)), ((1, 2), (1, 2))]


@harness("R03", "contacts.Contacts._compute_jacobian_matrix vector3.make_orthonormal_vectors", "two or three bodies, one or two contacts, any unit normal, positions and velocities", t_branch=300, time=300)
def rows(c):
    T, C = c.mod(TY), c.mod(CO)
    touching = c.choose("touching", TOUCH)
    n = 1 + max(max(t) for t in touching)
    bodies = [make_body(c, T, "b%d" % i, i, unit_q=False) for i in range(n)]
    e = engine_of(c, T, bodies)
    one = len(touching) == 1
    frames = None if one else [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)]
    e.contact_points = contact_points(c, T, bodies, touching, frames)
    J = C.Contacts._compute_jacobian_matrix(e)
    c.prove("shape", J.shape == (4 * len(touching), 6 * n))
    u = c.array([c.real("u%d" % i, -5, 5) for i in range(6 * n)])
    Ju = J.dot(u)
    A = J.toarray()
    for k, cp in enumerate(e.contact_points):
        rv, rw = relative_velocity(c, cp, u)
        r = Ju[4 * k:4 * k + 4]
        c.eq("normal_speed.%d" % k, r[0], dot(cp.n, rv))
        c.eq("spin.%d" % k, r[3], dot(cp.n, rw))
        # the two tangential rows: read the directions off B's columns, then they must be a right orthonormal frame
        ib = 6 * cp.bodyB.idx
        s, t = [A[4 * k + 1, ib + i] for i in range(3)], [A[4 * k + 2, ib + i] for i in range(3)]
        c.eq("unit_s.%d" % k, dot(s, s), 1)
        c.eq("unit_t.%d" % k, dot(t, t), 1)
        c.eq("s_t.%d" % k, dot(s, t), 0)
        c.eq("s_n.%d" % k, dot(s, cp.n), 0)
        c.eq("t_n.%d" % k, dot(t, cp.n), 0)
        c.eq("slide_s.%d" % k, r[1], dot(s, rv))
        c.eq("slide_t.%d" % k, r[2], dot(t, rv))


@harness("R03", "contacts.Contacts._compute_jacobian_matrix", "two or three bodies, one to three contacts, every impulse: no change of total linear and angular momentum, spectators untouched", t_branch=300, time=300)
def momentum(c):
    T, C = c.mod(TY), c.mod(CO)
    touching = c.choose("touching", TOUCH + [((0, 1), (2, 0), (1, 2))])
    n = max(2, 1 + max(max(t) for t in touching))
    bodies = [make_body(c, T, "b%d" % i, i, unit_q=False) for i in range(n)]
    e = engine_of(c, T, bodies)
    one = len(touching) == 1
    frames = None if one else [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8), (1.0, 0.0, 0.0)]
    e.contact_points = contact_points(c, T, bodies, touching, frames)
    J = C.Contacts._compute_jacobian_matrix(e)
    lam = c.array([c.real("lam%d" % i, -5, 5) for i in range(4 * len(touching))])
    f = J.T.dot(lam)
    P, L = [0, 0, 0], [0, 0, 0]
    touched = {i for t in touching for i in t}
    for i, b in enumerate(bodies):
        F, M = f[6 * i:6 * i + 3], f[6 * i + 3:6 * i + 6]
        rF = cross(c, b.r, F)
        for a in range(3):
            P[a] = P[a] + F[a]
            L[a] = L[a] + rF[a] + M[a]
        if i not in touched:
            c.eq("spectator.%d" % i, f[6 * i:6 * i + 6], [0] * 6)
    c.eq("linear", P, [0, 0, 0])
    c.eq("angular", L, [0, 0, 0])
    # a push along the normal acts on B along the normal (never pulls)
    cp = e.contact_points[0]
    if len(touching) == 1:
        nB = dot(cp.n, f[6 * cp.bodyB.idx:6 * cp.bodyB.idx + 3])
        c.eq("push_on_B", nB, lam[0])


def materials(c, T, e, bodies):
    """bodies carry materials; some pairs have their own interaction, others fall back to the default"""
    names = c.choose("materials", [("steel", "wood", "steel"), ("default", "wood", "ice"), ("wood", "steel", "default")])
    for b, m in zip(bodies, names):
        b.material = m
    lib = e.surfaces_interactions
    table = {}
    for key in (("default", "default"), ("steel", "wood"), ("default", "wood")):
        it = T.SurfacesInteraction()
        it.mu = c.array([c.real("mu.%s.%s.%d" % (key + (i,)), 0, 2) for i in range(3)])
        it.epsilon = c.real("eps.%s.%s" % key, 0, 1)
        lib.storage[key] = it
        table[key] = it

    def look(a, b):
        return table.get((a, b), table.get((b, a), table[("default", "default")]))
    return look


@harness("R03", "contacts.Contacts._get_friction_coefficient_vector _get_restitution_vector types.SurfacesInteractionLibrary.get_interaction", "three bodies with three material assignments, two contacts in every arrangement, bounce on and off", t_branch=300)
def material_terms(c):
    T, C = c.mod(TY), c.mod(CO)
    touching = c.choose("touching", [((0, 1), (1, 2)), ((1, 0), (2, 0)), ((2, 1), (0, 2))])
    bodies = [make_body(c, T, "b%d" % i, i, unit_q=False) for i in range(3)]
    e = engine_of(c, T, bodies)
    look = materials(c, T, e, bodies)
    e.contact_points = contact_points(c, T, bodies, touching, [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)])
    e.params.use_bounce = c.choose("bounce", [True, False])
    mu = C.Contacts._get_friction_coefficient_vector(e)
    ep = C.Contacts._get_restitution_vector(e)
    c.prove("sizes", mu.shape == (2,) and ep.shape == (8,))
    for k, (i, j) in enumerate(touching):
        it = look(bodies[i].material, bodies[j].material)
        c.eq("mu.%d" % k, mu[k], it.mu[0])
        c.eq("restitution.%d" % k, ep[4 * k], it.epsilon if e.params.use_bounce else 0)
        for s in (1, 2, 3):
            c.eq("restitution_slot.%d.%d" % (k, s), ep[4 * k + s], 0)


@harness("R03", "contacts.Contacts._compute_error_vector get_largest_penetration", "two contacts, every gap, approach speed, parameters and time step, pre-stabilisation on and off", minmax="define", t_branch=300)
def drift_terms(c):
    T, C = c.mod(TY), c.mod(CO)
    bodies = [make_body(c, T, "b%d" % i, i, unit_q=False) for i in range(2)]
    e = engine_of(c, T, bodies)
    e.contact_points = contact_points(c, T, bodies, [(0, 1), (1, 0)], [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)])
    p = e.params
    p.use_pre_stabilization = c.choose("pre", [True, False])
    p.gap_reduction = c.real("rate", 0, 1)
    p.min_gap_value = c.real("min_gap", 0, 0.1)
    p.max_gap_value = c.real("max_gap", 0.1, 1)
    dt = c.real("dt", 0.001, 1)
    v = c.array([c.real("v%d" % i, -5, 5) for i in range(8)])
    keep = copy_of(c, v)
    g = C.Contacts._compute_error_vector(dt, v, e)
    c.eq("argument_kept", v, keep)
    for k, cp in enumerate(e.contact_points):
        if not p.use_pre_stabilization:
            c.eq("off.%d" % k, g[4 * k:4 * k + 4], [0] * 4)
            continue
        for s in (1, 2, 3):
            c.eq("slot.%d.%d" % (k, s), g[4 * k + s], 0)
        gk = g[4 * k]
        deep = c.all(cp.g < -p.min_gap_value, v[4 * k] <= 0)
        c.prove("none.%d" % k, c.any(deep, gk == 0))
        slack = 0 if c.sym else 1e-9
        c.prove("amount.%d" % k, c.implies(deep, c.any(
            c.all(abs(gk * dt - p.gap_reduction * cp.g) <= slack, p.gap_reduction * cp.g >= -p.max_gap_value - slack),
            c.all(abs(gk * dt + p.max_gap_value) <= slack, p.gap_reduction * cp.g <= -p.max_gap_value + slack))))
        c.le("never_pulls.%d" % k, gk, 0)
    d = C.Contacts.get_largest_penetration(e)
    c.ge("depth_nonnegative", d, 0)
    for k, cp in enumerate(e.contact_points):
        c.ge("depth_covers.%d" % k, d, -cp.g)
    c.prove("depth_is_one", c.any(d == 0, *[d == -cp.g for cp in e.contact_points]))


@harness("R03", "contacts.Contacts.initialize finalize_solution", "two bodies (every fixed/free pattern) and one or two contacts, any state, force, material and time step", minmax="define", t_branch=300, time=500)
def right_hand_side(c):
    T, C, S = c.mod(TY), c.mod(CO), c.mod(SS)
    pat = c.choose("bodies", ["FF", "Ff", "fF"])
    touching = c.choose("touching", [((0, 1),), ((1, 0), (0, 1))])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f", unit_q=False) for i, k in enumerate(pat)]
    for i, b in enumerate(bodies):
        b.q = c.array([0.0, 1.0, 0.0, 0.0]) if i == 1 else c.array([1.0, 0.0, 0.0, 0.0])
        b.r = c.array([[1.0, 2.0, -1.0], [0.0, -1.0, 3.0]][i])
    gr = T.Gravity("g")
    bodies[0].forces = [gr]
    e = engine_of(c, T, bodies)
    it = e.surfaces_interactions.storage[("default", "default")]
    it.mu, it.epsilon = c.array([c.real("mu", 0, 2)] * 3), c.real("eps", 0, 1)
    e.params.use_bounce = True
    e.params.use_pre_stabilization = True
    e.contact_points = contact_points(c, T, bodies, touching, [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)])
    for cp, at in zip(e.contact_points, [[0.5, 0.25, 1.0], [-1.0, 0.5, 2.0]]):
        cp.p = c.array(at)              # arbitrary geometry: harness rows
    dt = c.real("dt", 0.001, 1)
    s = S.StateStorage()
    s.copy_from_engine(e)
    P = C.Contacts()
    P.initialize(dt, s, e)
    K = len(touching)
    A = P.J.toarray()
    W = s.W.toarray()
    for k, cp in enumerate(e.contact_points):
        rv, rw = relative_velocity(c, cp, s.u)
        av, aw = relative_velocity(c, cp, s.delta_u_ext)
        c.eq("b.normal.%d" % k, P.b[4 * k], (1 + it.epsilon) * dot(cp.n, rv) + dt * dot(cp.n, av) + P.g[4 * k])
        c.eq("b.spin.%d" % k, P.b[4 * k + 3], dot(cp.n, rw) + dt * dot(cp.n, aw))
        ib = 6 * cp.bodyB.idx
        for row in (1, 2):
            d = [A[4 * k + row, ib + i] for i in range(3)]
            c.eq("b.slide%d.%d" % (row, k), P.b[4 * k + row], dot(d, rv) + dt * dot(d, av))
        c.eq("mu.%d" % k, P.mu[k], it.mu[0])
    lam = [c.real("lam%d" % i, -5, 5) for i in range(4 * K)]
    P.sol = c.array(lam)
    du = P.finalize_solution()
    JT = [[A[r, i] for r in range(4 * K)] for i in range(12)]
    f = [dot(JT[i], lam) for i in range(12)]
    c.eq("response", du, [dot(W[i], f) for i in range(12)])
    for i, b in enumerate(bodies):
        if b.is_fixed:
            c.eq("fixed_no_response.%d" % i, du[6 * i:6 * i + 6], [0] * 6)
    for r in range(4 * K):
        d = 0
        for i in range(12):
            for j in range(12):
                d = d + A[r, i] * W[i][j] * A[r, j]
        c.eq("step_size.%d" % r, P.r[r] * d, 1)


@harness("R03", "post_stabilization.PostStabilization._compute_error_vector initialize finalize_solution", "two contacts, every gap and minimum gap", t_branch=300)
def post_terms(c):
    T, C, PST, S = c.mod(TY), c.mod(CO), c.mod(PS), c.mod(SS)
    bodies = [make_body(c, T, "b%d" % i, i, i == 1, unit_q=False) for i in range(2)]
    for b in bodies:
        b.q = c.array([1.0, 0.0, 0.0, 0.0])
    e = engine_of(c, T, bodies)
    e.contact_points = contact_points(c, T, bodies, [(0, 1), (1, 0)], [(0.0, -1.0, 0.0), (1.0, 0.0, 0.0)])
    e.params.min_gap_value = c.real("min_gap", 0, 0.1)
    s = S.StateStorage()
    s.copy_from_engine(e)
    P = C.Contacts()
    P.initialize(c.real("dt", 0.001, 1), s, e)
    D = PST.PostStabilization(contact_problem=P)
    D.initialize(1.0, s, e)
    for k, cp in enumerate(e.contact_points):
        c.prove("gap.%d" % k, c.any(c.all(cp.g < -e.params.min_gap_value, D.g[4 * k] == cp.g),
                                   c.all(cp.g >= -e.params.min_gap_value, D.g[4 * k] == 0)))
        for j in (1, 2, 3):
            c.eq("slot.%d.%d" % (k, j), D.g[4 * k + j], 0)
    lam = [c.real("lam%d" % i, -5, 5) for i in range(8)]
    D.sol = c.array(lam)
    dr = D.finalize_solution()
    A, W = P.J.toarray(), s.W.toarray()
    f = [dot([A[r, i] for r in range(8)], lam) for i in range(12)]
    c.eq("response", dr, [dot(W[i], f) for i in range(12)])


# ---------------------------------------------------------------------------------------- deformable bodies
SO = "rainbow.simulators.prox_soft_bodies.solver"
ST = "rainbow.simulators.prox_soft_bodies.types"
SOFT = {"a": [[0, 1, 2, 3], [4, 2, 1, 3]], "b": [[3, 0, 1, 2]], "c": [[2, 0, 3, 1]]}
SOFT_SIZE = {"a": 5, "b": 4, "c": 4}


def soft_world(c, touching, frames=None):
    """touching: tuples (body, element, body, element); weights of each side are arbitrary numbers adding up to one"""
    import numpy as np
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    TY_ = c.mod(ST)
    e = TY_.Engine()
    off = 0
    for i, (name, T) in enumerate(sorted(SOFT.items())):
        b = TY_.SoftBody(name)
        b.idx, b.offset, b.T = i, off, np.array(T, dtype=np.int32)
        b.material_description = TY_.MaterialDescription()
        e.bodies[name] = b
        off += SOFT_SIZE[name]
    e.number_of_nodes = off

    def weights(name):
        w = [c.real("%s_%d" % (name, i), -1, 2) for i in range(3)]
        return c.array(w + [1 - w[0] - w[1] - w[2]])
    for k, (A, tA, B, tB) in enumerate(touching):
        n = c.unit("n%d" % k) if frames is None else c.array(frames[k])
        e.contact_points.append(TY_.ContactPoint(e.bodies[A], e.bodies[B], tA, tB, weights("wA%d" % k), weights("wB%d" % k), c.vec("p%d" % k), n, c.real("gap%d" % k, -1, 1)))
    return e


SOFT_TOUCH = [(("a", 1, "b", 0),), (("c", 0, "a", 0),), (("a", 0, "a", 1),), (("b", 0, "a", 1), ("c", 0, "b", 0)), (("a", 0, "b", 0), ("a", 1, "b", 0))]


def soft_point(c, e, body, tet, w, u):
    nodes = [e.bodies[body].offset + int(i) for i in SOFT[body][tet]]
    return [sum(w[i] * u[3 * nodes[i] + k] for i in range(4)) for k in range(3)]


@harness("R03", "prox_soft_bodies.solver.compute_jacobian_matrix", "three deformable bodies (2, 1 and 1 elements), one contact with any unit normal, one or two contacts with two fixed normals, also of two elements of one body; any barycentric weights and velocities", t_branch=300, time=300)
def soft_rows(c):
    S = c.mod(SO)
    touching = c.choose("touching", SOFT_TOUCH)
    any_normal = touching in (SOFT_TOUCH if c.thorough else SOFT_TOUCH[:1])[:3]
    FR = [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)]
    e = soft_world(c, touching, None if any_normal else FR)
    n = 3 * e.number_of_nodes
    J = S.compute_jacobian_matrix(e, {}, False)
    c.prove("shape", J.shape == (4 * len(touching), n))
    u = c.array([c.real("u%d" % i, -5, 5) for i in range(n)])
    Ju = J.dot(u)
    A = J.toarray()
    for k, (a, ta, b, tb) in enumerate(touching):
        cp = e.contact_points[k]
        vA, vB = soft_point(c, e, a, ta, cp.omegaA, u), soft_point(c, e, b, tb, cp.omegaB, u)
        rv = [vB[i] - vA[i] for i in range(3)]
        r = Ju[4 * k:4 * k + 4]
        c.eq("normal_speed.%d" % k, r[0], dot(cp.n, rv))
        c.eq("no_spin.%d" % k, A[4 * k + 3], [0] * n)
        c.lemma_eq("no_spin_speed.%d" % k, r[3], 0)
        # sliding rows: together with the normal they give the squared relative speed (an orthonormal frame)
        if any_normal:
            c.eq("slip_speed.%d" % k, r[0] * r[0] + r[1] * r[1] + r[2] * r[2], dot(rv, rv))
        else:
            N = [float(x) for x in FR[k]]
            tang = [rv[i] - N[i] * dot(N, rv) for i in range(3)]
            c.eq("slip_speed.%d" % k, r[1] * r[1] + r[2] * r[2], dot(tang, tang))


@harness("R03", "prox_soft_bodies.solver.compute_jacobian_matrix", "the same worlds, every impulse: no change of total linear momentum, none of the angular momentum about the contact point when both sides meet there, other nodes untouched", t_branch=300, time=300)
def soft_momentum(c):
    S = c.mod(SO)
    touching = c.choose("touching", SOFT_TOUCH)
    frames = [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)]
    e = soft_world(c, touching, frames)
    N = e.number_of_nodes
    J = S.compute_jacobian_matrix(e, {}, False)
    lam = [c.real("lam%d" % i, -5, 5) for i in range(4 * len(touching))]
    x = [c.real("x%d" % i, -3, 3) for i in range(3 * N)]
    f = J.T.dot(c.array(lam))
    for k in range(3):
        c.eq("linear%d" % k, sum(f[3 * i + k] for i in range(N)), 0)
    used = set()
    for a, ta, b, tb in touching:
        used |= {e.bodies[a].offset + int(i) for i in SOFT[a][ta]} | {e.bodies[b].offset + int(i) for i in SOFT[b][tb]}
    for i in range(N):
        if i not in used:
            c.eq("spectator%d" % i, f[3 * i:3 * i + 3], [0, 0, 0])
    if len(touching) == 1:
        (a, ta, b, tb), = touching
        cp = e.contact_points[0]
        pA, pB = soft_point(c, e, a, ta, cp.omegaA, x), soft_point(c, e, b, tb, cp.omegaB, x)
        L = [0, 0, 0]
        for i in range(N):
            m = cross(c, x[3 * i:3 * i + 3], f[3 * i:3 * i + 3])
            L = [L[k] + m[k] for k in range(3)]
        # torque = (pB - pA) x force on B: zero when the two material points coincide
        A = J.toarray()
        nodesB = [3 * (e.bodies[b].offset + int(i)) for i in SOFT[b][tb]]
        if a != b:
            FB = [sum(f[j + k] for j in nodesB) for k in range(3)]
            m = cross(c, [pB[k] - pA[k] for k in range(3)], FB)
            c.eq("angular", L, m)


@harness("R03", "prox_soft_bodies.solver.get_friction_coefficient_vector get_largest_penetration_error types.SurfacesInteractionLibrary.get_interaction", "two contacts, every gap, materials with and without their own interaction", minmax="define", t_branch=300)
def soft_materials(c):
    S, T = c.mod(SO), c.mod(ST)
    touching = c.choose("touching", [SOFT_TOUCH[3], SOFT_TOUCH[4], ()])
    e = soft_world(c, touching, [(0.0, -1.0, 0.0), (0.6, 0.0, 0.8)])
    names = c.choose("materials", [("steel", "wood", "steel"), ("wood", "default", "ice"), ("ice", "steel", "default")])
    table = {}
    for key in (("default", "default"), ("steel", "wood"), ("default", "wood")):
        it = T.SurfacesInteraction()
        it.mu = c.array([c.real("mu.%s.%s.%d" % (key + (i,)), 0, 2) for i in range(3)])
        e.surfaces_interactions.storage[key] = table[key] = it
    for b, m in zip(e.bodies.values(), names):
        b.material_description.name = m
    mu = S.get_friction_coefficient_vector(e)
    c.prove("one_per_contact", mu.shape == (len(touching),))
    for k, (a, _, b, _) in enumerate(touching):
        ma, mb = e.bodies[a].material_description.name, e.bodies[b].material_description.name
        it = table.get((ma, mb), table.get((mb, ma), table[("default", "default")]))
        c.eq("mu.%d" % k, mu[k], it.mu[0])
    d = S.get_largest_penetration_error(e)
    c.ge("depth_nonnegative", d, 0)
    for k, cp in enumerate(e.contact_points):
        c.ge("depth_covers.%d" % k, d, -cp.g)
    c.prove("depth_is_one", c.any(d == 0, *[d == -cp.g for cp in e.contact_points]))
