"""Mass properties."""
from symx.harness import harness
from common import *
from fractions import Fraction
MM = "rainbow.simulators.prox_rigid_bodies.mass"
SM = "rainbow.geometry.surface_mesh"


def tet_moments(c, P):
    """volume, first and second moments of a tetrahedron (closed form)"""
    e = [P[i] - P[0] for i in (1, 2, 3)]
    vol = det3(e) / 6
    s = [P[0][k] + P[1][k] + P[2][k] + P[3][k] for k in range(3)]
    first = [vol * s[k] / 4 for k in range(3)]
    second = {}
    for a in range(3):
        for b in range(a, 3):
            t = s[a] * s[b]
            for p in P:
                t = t + p[a] * p[b]
            second[a, b] = vol * t / 20
    return vol, first, second


def box_moments(c, o, d):
    """axis aligned box with centre o and side lengths d"""
    vol = d[0] * d[1] * d[2]
    first = [vol * o[k] for k in range(3)]
    second = {}
    for a in range(3):
        for b in range(a, 3):
            second[a, b] = vol * (o[a] * o[b] + (d[a] * d[a] / 12 if a == b else 0))
    return vol, first, second


def close(c, name, got, want, scale=Fraction(1, 10 ** 10)):
    """equal, or clamped to zero because its size is at most 1e-10"""
    if c.sym:
        if c.numeric:
            return c.observe(name, got)
        d = got - want
        c.prove(name, c.any(d == 0, c.all(got == 0, want <= scale, want >= -scale)))
    else:
        c.observe(name, got)
        c.prove(name, abs(got - want) <= 1e-6 * (1 + abs(want)))


def compare(c, p, rho, m):
    vol, first, second = m
    close(c, "mass", p.mass, rho * vol)
    for k, g in enumerate((p.x, p.y, p.z)):
        close(c, "centre%d" % k, g * vol, first[k], vol * Fraction(1, 10 ** 10) if c.sym else 1)
    close(c, "Ixx", p.Ixx, rho * (second[1, 1] + second[2, 2]))
    close(c, "Iyy", p.Iyy, rho * (second[0, 0] + second[2, 2]))
    close(c, "Izz", p.Izz, rho * (second[0, 0] + second[1, 1]))
    close(c, "Ixy", p.Ixy, -rho * second[0, 1])
    close(c, "Ixz", p.Ixz, -rho * second[0, 2])
    close(c, "Iyz", p.Iyz, -rho * second[1, 2])


@harness("R01", "mass.compute_mass_properties mass.__compute_projected_face_integral", "every axis-aligned box at every position (sides 0.1..10), every density", time=300)
def box(c):
    M, S = c.mod(MM), c.mod(SM)
    d = [c.real("d%d" % k, 0.1, 10) for k in range(3)]
    o = [c.real("o%d" % k, -10, 10) for k in range(3)]
    rho = c.real("rho", 0.1, 1000)
    V, T = S.create_box(*d)
    V = c.array([[V[i][k] + o[k] for k in range(3)] for i in range(8)])
    compare(c, M.compute_mass_properties(V, T, rho), rho, box_moments(c, o, d))


def _tet(c, P, rho):
    M = c.mod(MM)
    T = c.iarray([(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)])
    m = tet_moments(c, P)
    vol, first, second = m
    for v in [rho * second[0, 1], rho * second[0, 2], rho * second[1, 2]] + [f / vol for f in first]:
        c.assume(c.any(v > 1e-9, v < -1e-9))          # clamping of tiny values is covered by the box harness
    compare(c, M.compute_mass_properties(P, T, rho), rho, m)


@harness("R01", "mass.compute_mass_properties mass.__compute_projected_face_integral", "every corner tetrahedron (three right-angled edges 0.1..10, any order of axes, either side) at every position, every density", time=600)
def corner_tetrahedron(c):
    x = [c.real("x%d" % k, -10, 10) for k in range(3)]
    a, b, e = (c.real(n, 0.1, 10) for n in ("a", "b", "e"))
    rho = c.real("rho", 0.1, 1000)
    ax = c.choose("axes", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    s = c.choose("side", [1, -1] if c.thorough else [1])
    loc = [[0, 0, 0], [a * s, 0, 0], [0, b * s, 0], [0, 0, e]]
    _tet(c, c.array([[x[k] + l[ax[k]] for k in range(3)] for l in loc]), rho)


SHAPES = [([2, 0, 0], [1, 3, 0], [1, 1, 4]), ([1, 2, -1], [-2, 1, 1], [1, 1, 3]), ([3, 1, 1], [1, 3, 1], [1, 1, 3]),
          ([1, -1, 0], [1, 1, 0], [0, 1, 2]), ([5, 1, 0], [0, 1, 4], [-1, 3, 1]), ([1, 0, 1], [1, 1, 0], [0, -1, 2])]


@harness("R01", "mass.compute_mass_properties mass.__compute_projected_face_integral", "six slanted tetrahedron shapes, every scaling 0.1..10 and position, every density", time=600)
def slanted_tetrahedron(c):
    x = [c.real("x%d" % k, -10, 10) for k in range(3)]
    s, rho = c.real("s", 0.1, 10), c.real("rho", 0.1, 1000)
    sh = c.choose("shape", SHAPES)
    d = sum(sh[0][i] * (sh[1][(i + 1) % 3] * sh[2][(i + 2) % 3] - sh[1][(i + 2) % 3] * sh[2][(i + 1) % 3]) for i in range(3))
    if d < 0:
        sh = (sh[1], sh[0], sh[2])
    _tet(c, c.array([[x[k] + s * l[k] for k in range(3)] for l in ([0, 0, 0],) + tuple(sh)]), rho)


@harness("R01", "mass.compute_mass_properties", "meshes that are inside out (boxes of every size)")
def rejects_inside_out(c):
    M, S = c.mod(MM), c.mod(SM)
    d = [c.real("d%d" % k, 0.1, 10) for k in range(3)]
    V, T = S.create_box(*d)
    T = c.iarray([[int(t[0]), int(t[2]), int(t[1])] for t in T])
    try:
        M.compute_mass_properties(V, T, c.real("rho", 0.1, 1000))
        c.fail("accepted")
    except RuntimeError:
        c.prove("rejected", True)


# ---- frames ------------------------------------------------------------------------------------
def eigen_contract(c):
    """eigh: orthonormal eigenvectors, ascending eigenvalues, A = V W V^T.  eig: unit eigenvectors only (repeated
    eigenvalues leave them otherwise unspecified)."""
    if not c.sym:
        return
    import numpy as np

    def make(kind):
        def hook(A):
            A = np.asarray(A, dtype=object)
            W = U = None
            if c.numeric:
                W, U = getattr(np.linalg, kind)(num_array(c, A))
            w = c.array([c.fresh("ew%d" % i, num=None if W is None else float(W[i])) for i in range(3)])
            v = c.array([[c.fresh("ev%d%d" % (i, j), num=None if U is None else float(U[i, j])) for j in range(3)] for i in range(3)])
            for j in range(3):
                for i in range(3):
                    c.axiom(dot(A[i], v[:, j]) == w[j] * v[i, j])
                    if i == j or kind == "eigh":
                        c.axiom(dot(v[:, i], v[:, j]) == (1 if i == j else 0))
                    if kind == "eigh":
                        c.axiom(dot(v[i], v[j]) == (1 if i == j else 0))
                        c.axiom(v[i, 0] * w[0] * v[j, 0] + v[i, 1] * w[1] * v[j, 1] + v[i, 2] * w[2] * v[j, 2] == A[i][j])
            if kind == "eigh":
                c.axiom(w[0] <= w[1])
                c.axiom(w[1] <= w[2])
                if c.numeric:
                    return w, v
                c.axiom(det3(v) == c.choose("handedness", [1, -1]))
            return w, v
        return hook
    for kind in ("eig", "eigh"):
        c.stub(c.np.linalg, kind, make(kind))


def _revolution(c):
    import numpy as np
    n = np.array([0.36, 0.48, 0.8])
    return 8.25 * np.eye(3) - 4.5 * np.outer(n, n)


@harness("R01", "mass.xform_model_2_body_space mass.__translate_to_body_space_origin mass.__rotate_to_model_space_orientation", "every mass, centre of mass and symmetric tensor about it with off-diagonal entries exactly zero (in every combination) or above 1e-9 in size, repeated principal moments included (the validated runs use a body of revolution)", time=600, abs="define", t_branch=300)
def to_body_frame(c):
    M, Q = c.mod(MM), c.mod(QM)
    m = c.real("m", 0.1, 100)
    r = c.vec("r")
    rev = _revolution(c)
    zero = c.choose("zero_products", [(), ((0, 1),), ((0, 2),), ((1, 2),), ((0, 1), (0, 2)), ((0, 1), (1, 2)), ((0, 2), (1, 2)), ((0, 1), (0, 2), (1, 2))])
    for a, b in zero:
        rev[a, b] = rev[b, a] = 0
    I = {}
    for a in range(3):
        for b in range(a, 3):
            I[a, b] = I[b, a] = c.real("I%d%d" % (a, b), pick=[float(rev[a, b])]) if (a, b) not in zero else c.array([0.0])[0]
    Icm = c.array([[I[a, b] for b in range(3)] for a in range(3)])
    for a, b in ((0, 1), (0, 2), (1, 2)):
        if (a, b) not in zero:
            c.assume(c.any(Icm[a][b] > 1e-9, Icm[a][b] < -1e-9))
    p = M.MassProperties()
    p.mass = m
    p.x, p.y, p.z = r
    rr = dot(r, r)
    J = [[Icm[a][b] + m * ((rr if a == b else 0) - r[a] * r[b]) for b in range(3)] for a in range(3)]
    p.Ixx, p.Iyy, p.Izz, p.Ixy, p.Ixz, p.Iyz = J[0][0], J[1][1], J[2][2], J[0][1], J[0][2], J[1][2]
    eigen_contract(c)
    hold = {}
    if c.sym:
        def from_matrix(A):                     # matrix -> quaternion is decided by Q01
            hold["R"] = A
            return c.array([1, 0, 0, 0])
        Q.from_matrix = from_matrix
    t, q, mass, Ib = M.xform_model_2_body_space(p)
    c.eq("mass", mass, m)
    c.eq("origin_at_the_centre_of_mass", t, r)
    R = hold["R"] if c.sym else R_of(c, q)
    c.eq("orthogonal", mm(c, R, tr(c, R)), eye(c))
    c.eq("right_handed", det3(R), 1)
    DB = c.array([[Ib[i] if i == j else 0 for j in range(3)] for i in range(3)])
    c.eq("same_tensor", mm(c, R, mm(c, DB, tr(c, R))), Icm)
    c.ge("sorted01", Ib[0], Ib[1])
    c.ge("sorted12", Ib[1], Ib[2])


@harness("R01", "mass.update_inertia_tensor", "every orientation and every diagonal tensor")
def world_tensor(c):
    M = c.mod(MM)
    R = R_of(c, c.quat("q"))
    B = c.vec("b")
    W = M.update_inertia_tensor(R, B)
    D = c.array([[B[i] if i == j else 0 for j in range(3)] for i in range(3)])
    c.eq("R_B_Rt", W, mm(c, R, mm(c, D, tr(c, R))))
    c.eq("trace_kept", W[0, 0] + W[1, 1] + W[2, 2], B[0] + B[1] + B[2])
    c.eq("determinant_kept", det3(W), B[0] * B[1] * B[2])
    x = c.vec("x")
    pos = c.vec("p")
    for k in range(3):
        c.assume(B[k] >= 0.01)
    y = mv(c, tr(c, R), x)
    c.eq("quadratic_form", dot(x, mv(c, W, x)), B[0] * y[0] * y[0] + B[1] * y[1] * y[1] + B[2] * y[2] * y[2])
