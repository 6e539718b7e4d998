"""Hinge joints of the rigid simulator."""
from symx.harness import harness
from common import *
from R02 import make_body, engine_of
TY = "rainbow.simulators.prox_rigid_bodies.types"
SS = "rainbow.simulators.prox_rigid_bodies.state_storage"
HI = "rainbow.simulators.prox_rigid_bodies.constraints.hinges"
NOTE = """Real arithmetic. One or two hinges between two or three bodies; arbitrary states, joint arms, unit axes
and child orientations; parent orientations come from a list (the row formulas only see the rotated axis and arms). The axes of the second hinge and of the multi-body harnesses come from a list of directions."""

Q0 = [1.0, 0.0, 0.0, 0.0]
QX = [0.0, 1.0, 0.0, 0.0]
TURNS = [Q0, [0.5, 0.5, 0.5, 0.5], [0.6, 0.0, 0.8, 0.0], [-0.6, 0.48, 0.0, 0.64]]


def hinge(c, T, name, idx, parent, child, arm_p=None, arm_c=None, axis_p=None, axis_c=None):
    h = T.Hinge(name)
    h.idx = idx
    h.parent, h.child = parent, child
    h.arm_p = c.vec(name + ".arm_p") if arm_p is None else arm_p
    h.arm_c = c.vec(name + ".arm_c") if arm_c is None else arm_c
    h.axis_p = c.array(axis_p) if axis_p is not None else c.array([0.0, 0.0, 1.0])
    h.axis_c = c.array(axis_c) if axis_c is not None else c.array([0.0, 0.0, 1.0])
    return h


@harness("R04", "types.Hinge.set_parent_socket set_child_socket", "every joint frame")
def sockets(c):
    T, CS = c.mod(TY), c.mod("rainbow.math.coordsys")
    b1, b2 = make_body(c, T, "a", 0, unit_q=False), make_body(c, T, "b", 1, unit_q=False)
    h = T.Hinge("h")
    f1, f2 = CS.make(c.vec("r1"), c.quat("q1")), CS.make(c.vec("r2"), c.quat("q2"))
    k1, k2 = copy_of(c, f1.r), copy_of(c, f2.r)
    h.set_parent_socket(b1, f1)
    h.set_child_socket(b2, f2)
    R1, R2 = R_of(c, f1.q), R_of(c, f2.q)
    c.prove("bodies", h.parent is b1 and h.child is b2)
    c.eq("arm_p", h.arm_p, k1)
    c.eq("arm_c", h.arm_c, k2)
    c.eq("axis_p", h.axis_p, [R1[i][2] for i in range(3)])
    c.eq("axis_c", h.axis_c, [R2[i][2] for i in range(3)])
    h.arm_p[0] = h.arm_p[0] + 1
    c.eq("frame_kept", f1.r, k1)


AXES = [(0.0, 0.0, 1.0), (0.0, -1.0, 0.0), (0.6, 0.0, 0.8), (-0.6, 0.48, 0.64)]


def rows_of(c, J, h, n):
    A = J.toarray()
    return [[A[5 * h.idx + i, j] for j in range(6 * n)] for i in range(5)]


@harness("R04", "hinges.Hinges._compute_jacobian_matrix vector3.make_orthonormal_vectors quaternion.rotate", "one or two hinges, two or three bodies, arbitrary states, arms, child orientation and unit axis (parent orientation from a list)", t_branch=300, time=400, minmax="define")
def rows(c):
    T, H = c.mod(TY), c.mod(HI)
    topo = c.choose("joints", [((0, 1),), ((1, 0),), ((0, 1), (2, 1)), ((2, 0), (0, 1))])
    n = 1 + max(max(t) for t in topo)
    n = max(n, 2)
    bodies = [make_body(c, T, "b%d" % i, i, unit_q=False) for i in range(n)]
    mode = "any_axis" if len(topo) == 1 else "list"
    for i, b in enumerate(bodies):
        b.q = c.array(QX if i == 1 else Q0)
    if mode == "any_axis":
        bodies[topo[0][0]].q = c.array(list(c.choose("turn", TURNS)))
        bodies[topo[0][1]].q = c.quat("qc")
    e = engine_of(c, T, bodies)
    for k, (i, j) in enumerate(topo):
        h = hinge(c, T, "h%d" % k, k, bodies[i], bodies[j])
        if mode == "any_axis":
            h.axis_p = c.unit("axis")
        elif mode == "list":
            h.axis_p = c.array(list(c.choose("axis%d" % k, AXES)))
        e.hinges[h.name] = h
    J = H.Hinges._compute_jacobian_matrix(e)
    c.prove("shape", J.shape == (5 * len(topo), 6 * n))
    u = [c.real("u%d" % i, -5, 5) for i in range(6 * n)]
    A = J.toarray()
    lam = [c.real("l%d" % i, -5, 5) for i in range(5 * len(topo))]
    for h in e.hinges.values():
        rws = rows_of(c, J, h, n)
        p, ch = h.parent, h.child
        ap, ac = mv(c, R_of(c, p.q), h.arm_p), mv(c, R_of(c, ch.q), h.arm_c)
        axis = mv(c, R_of(c, p.q), h.axis_p)

        def vel(b, arm):
            v, w = u[6 * b.idx:6 * b.idx + 3], u[6 * b.idx + 3:6 * b.idx + 6]
            x = cross(c, w, arm)
            return [v[i] + x[i] for i in range(3)], w
        vp, wp = vel(p, ap)
        vc, wc = vel(ch, ac)
        Ju = [dot(r, u) for r in rws]
        # the three linear rows are the relative velocity of the joint points up to one sign
        sg = rws[0][6 * p.idx]
        c.eq("%s.sign" % h.name, sg * sg, 1)
        c.eq("%s.points" % h.name, Ju[:3], [sg * (vp[i] - vc[i]) for i in range(3)])
        # the two angular rows: two independent directions orthogonal to the axis
        d = [[rws[r][6 * p.idx + 3 + i] for i in range(3)] for r in (3, 4)]
        for r in (0, 1):
            c.eq("%s.turn%d" % (h.name, r), Ju[3 + r], dot(d[r], [wp[i] - wc[i] for i in range(3)]))
            c.eq("%s.free_about_axis%d" % (h.name, r), dot(d[r], axis), 0)
            c.eq("%s.unit%d" % (h.name, r), dot(d[r], d[r]), 1)
        c.eq("%s.independent" % h.name, dot(d[0], d[1]), 0)
    f = [dot([A[r, i] for r in range(len(lam))], lam) for i in range(6 * n)]
    P = [0, 0, 0]
    for i in range(n):
        for a in range(3):
            P[a] = P[a] + f[6 * i + a]
    c.eq("linear_momentum", P, [0, 0, 0])


@harness("R04", "hinges.Hinges._compute_jacobian_matrix", "two bodies, joint points together, any impulse: no change of total angular momentum", t_branch=300, minmax="define")
def angular_momentum(c):
    T, H = c.mod(TY), c.mod(HI)
    i, j = c.choose("joint", [(0, 1), (1, 0)])
    bodies = [make_body(c, T, "b%d" % k, k, unit_q=False) for k in range(2)]
    bodies[i].q, bodies[j].q = c.array(list(c.choose("turn", TURNS))), c.quat("qc")
    e = engine_of(c, T, bodies)
    h = hinge(c, T, "h", 0, bodies[i], bodies[j])
    h.axis_p = c.unit("axis")
    e.hinges["h"] = h
    ap, ac = mv(c, R_of(c, h.parent.q), h.arm_p), mv(c, R_of(c, h.child.q), h.arm_c)
    h.child.r = c.array([h.parent.r[k] + ap[k] - ac[k] for k in range(3)])       # joint points coincide
    A = H.Hinges._compute_jacobian_matrix(e).toarray()
    lam = [c.real("l%d" % k, -5, 5) for k in range(5)]
    L = [0, 0, 0]
    for k, b in enumerate(bodies):
        f = [dot([A[r, 6 * k + a] for r in range(5)], lam) for a in range(6)]
        x = cross(c, b.r, f[:3])
        for a in range(3):
            L[a] = L[a] + x[a] + f[3 + a]
    c.eq("angular_momentum", L, [0, 0, 0])


@harness("R04", "hinges.Hinges._compute_error_vector _compute_jacobian_matrix initialize", "every relative placement of the joint points, every misalignment of the axes below a right angle (parent axis from a list), reduction rate and time step: a velocity that satisfies the stabilised constraint reduces both", t_branch=300, time=400, minmax="define")
def drift_is_reduced(c):
    T, H = c.mod(TY), c.mod(HI)
    topo = c.choose("joints", [((0, 1),), ((1, 0),), ((0, 1), (2, 1)), ((2, 0), (0, 1))])
    n = 1 + max(max(t) for t in topo)
    bodies = [make_body(c, T, "b%d" % k, k, unit_q=False) for k in range(n)]
    for i, b in enumerate(bodies):
        b.q = c.array(QX if i == 1 else Q0)
    e = engine_of(c, T, bodies)
    for k, (i, j) in enumerate(topo):
        h = hinge(c, T, "h%d" % k, k, bodies[i], bodies[j], axis_p=list(c.choose("axis%d" % k, AXES if not k else AXES[1:3])))
        h.axis_c = c.unit("axis_c%d" % k)
        e.hinges[h.name] = h
    on = c.choose("pre", [True, False])
    e.params.use_pre_stabilization = on
    e.params.gap_reduction = c.real("rate", 0.1, 1)
    dt = c.real("dt", 0.01, 1)
    G = H.Hinges._compute_error_vector(dt, e)
    if not on:
        c.eq("off", G, [0] * (5 * len(topo)))
        return
    A = H.Hinges._compute_jacobian_matrix(e).toarray()
    for k, h in enumerate(e.hinges.values()):
        o = 5 * h.idx
        p, ch = h.parent, h.child
        ap, ac = mv(c, R_of(c, p.q), h.arm_p), mv(c, R_of(c, ch.q), h.arm_c)
        gap = [p.r[i] + ap[i] - ch.r[i] - ac[i] for i in range(3)]
        n_p, n_c = mv(c, R_of(c, p.q), h.axis_p), mv(c, R_of(c, ch.q), h.axis_c)
        # required relative motion: rows * u = -g
        sg = A[o, 6 * p.idx]
        c.eq("gap_shrinks%d" % k, [-sg * G[o + i] * dt for i in range(3)], [-e.params.gap_reduction * gap[i] for i in range(3)])
        d = [[A[o + r, 6 * p.idx + 3 + a] for a in range(3)] for r in (3, 4)]
        w = [-G[o + 3] * d[0][a] - G[o + 4] * d[1][a] for a in range(3)]     # parent's spin relative to the child, orthogonal to the axis
        # (n_p . n_c) changes by (w x n_p) . n_c: it must grow unless the axes are parallel
        x = cross(c, w, n_p)
        u = cross(c, n_p, n_c)
        c.eq("axes_align%d" % k, dot(x, n_c) * dt, e.params.gap_reduction * dot(u, u))


@harness("R04", "hinges.Hinges.initialize finalize_solution", "two bodies, every fixed/free pattern, any velocity, force and impulse", t_branch=300, minmax="define")
def right_hand_side(c):
    T, H, S = c.mod(TY), c.mod(HI), c.mod(SS)
    pat = c.choose("bodies", ["FF", "Ff", "fF"])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f", unit_q=False) for i, k in enumerate(pat)]
    for i, b in enumerate(bodies):
        b.q = c.array(QX if i == 1 else Q0)
    gr = T.Gravity("g")
    bodies[0].forces = [gr]
    e = engine_of(c, T, bodies)
    h = hinge(c, T, "h", 0, bodies[0], bodies[1], c.array([1.0, 0.5, -1.0]), c.array([0.25, 0.0, 2.0]), list(AXES[2]), list(AXES[0]))
    e.hinges["h"] = h
    e.params.use_pre_stabilization = True
    dt = c.real("dt", 0.001, 1)
    s = S.StateStorage()
    s.copy_from_engine(e)
    P = H.Hinges()
    P.initialize(dt, s, e)
    A, W = P.J.toarray(), s.W.toarray()
    for r in range(5):
        row = [A[r, i] for i in range(12)]
        c.eq("b.%d" % r, P.b[r], dot(row, s.u) + dt * dot(row, s.delta_u_ext) + P.g[r])
    lam = [c.real("lam%d" % i, -5, 5) for i in range(5)]
    P.sol = c.array(lam)
    du = P.finalize_solution()
    f = [dot([A[r, i] for r in range(5)], lam) for i in range(12)]
    c.eq("response", du, [dot(W[i], f) for i in range(12)])
    for i, b in enumerate(bodies):
        if b.is_fixed:
            c.eq("fixed_no_response.%d" % i, du[6 * i:6 * i + 6], [0] * 6)


@harness("R04", "hinges.Hinges.sweep", "one hinge, every impulse iterate, velocity and mass: a sweep leaves the impulses unchanged exactly when the constraint is met", t_branch=300, minmax="define")
def sweep_fixed_point(c):
    T, H, S = c.mod(TY), c.mod(HI), c.mod(SS)
    pat = c.choose("bodies", ["FF", "fF"])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f", unit_q=False) for i, k in enumerate(pat)]
    for i, b in enumerate(bodies):
        b.q = c.array(QX if i == 1 else Q0)
        b.inertia = c.array([1.0, 2.0, 1.5])
    e = engine_of(c, T, bodies)
    h = hinge(c, T, "h", 0, bodies[0], bodies[1], c.array([1.0, 0.5, -1.0]), c.array([0.25, 0.0, 2.0]), list(AXES[2]), list(AXES[0]))
    e.hinges["h"] = h
    s = S.StateStorage()
    s.copy_from_engine(e)
    P = H.Hinges()
    P.initialize(c.real("dt", 0.001, 1), s, e)
    A, W = P.J.toarray(), s.W.toarray()
    x0 = [c.real("x%d" % i, -5, 5) for i in range(5)]
    P.x = c.array(x0)
    P.r = c.array([c.real("r%d" % i, 0.1, 2) for i in range(5)])
    P.b = c.array([c.real("b%d" % i, -5, 5) for i in range(5)])
    f = [dot([A[r, i] for r in range(5)], x0) for i in range(12)]
    w = [dot(W[i], f) for i in range(12)]
    P.sweep()
    for r in range(5):
        res = dot([A[r, i] for i in range(12)], w) + P.b[r]
        c.eq("moves_against_the_residual.%d" % r, P.x[r] - x0[r], -P.r[r] * res)
