"""Finite element forces, mass and damping of the deformable body simulator."""
from symx.harness import harness
from common import *
SO = "rainbow.simulators.prox_soft_bodies.solver"
ST = "rainbow.simulators.prox_soft_bodies.types"
MECH = "rainbow.simulators.prox_soft_bodies.mechanics"
NOTE = """Real arithmetic.  Element level: every placement of one tetrahedron with volume >= 0.001/6 (material and spatial), every stress.  Assembly: meshes of one to three tetrahedra in five connectivities (shared face, edge, node, none), arbitrary element matrices.  Engine level: two bodies of one or two elements."""
MESHES = {"one": (4, [[0, 1, 2, 3]]), "face": (5, [[0, 1, 2, 3], [1, 2, 3, 4]]), "edge": (6, [[0, 1, 2, 3], [5, 3, 4, 1]]),
          "node": (7, [[3, 1, 2, 0], [4, 0, 5, 6]]), "apart": (8, [[0, 1, 2, 3], [7, 6, 5, 4]]), "three": (6, [[0, 1, 2, 3], [2, 1, 3, 4], [5, 0, 1, 2]])}


def tets(c, names=None):
    n, T = MESHES[c.choose("mesh", names or sorted(MESHES))]
    return n, T


def T_of(c, T):
    import numpy as np
    return np.array(T)


def nodes(c, name, n, simple=False):
    return c.array([[c.real("%s%d_%d" % (name, i, k), -3, 3) for k in range(3)] for i in range(n)])


def six_volume(c, x, t):
    e = [x[t[i]] - x[t[0]] for i in (1, 2, 3)]
    return dot(e[2], cross(c, e[0], e[1]))


def proper(c, x, T):
    for t in T:
        c.assume(six_volume(c, x, t) >= 0.001)


def arb(c, name, n=9):
    return [c.real("%s_%d" % (name, i), -2, 2) for i in range(n)]


def mat3(c, name):
    a = arb(c, name)
    return c.array([a[0:3], a[3:6], a[6:9]])


def symmetric(c, name):
    u = arb(c, name, 6)
    return c.array([[u[0], u[1], u[2]], [u[1], u[3], u[4]], [u[2], u[4], u[5]]])


@harness("D02", "Native.compute_outward_face_vectors Native.compute_D", "every placement of a tetrahedron; meshes of 1..3 elements")
def shape_gradients(c):
    N = c.mod(SO).Native
    n, T = tets(c)
    x = nodes(c, "x", n)
    proper(c, x, T)
    g = N.compute_outward_face_vectors(x, T_of(c, T))
    D = N.compute_D(x, T_of(c, T))
    c.prove("shape", g.shape == (len(T), 3, 4))
    for e, t in enumerate(T):
        V6 = six_volume(c, x, t)
        for a in range(4):
            col = [g[e][k][a] for k in range(3)]
            for b in range(1, 4):         # -volume * (gradient of shape function a) along edge b
                c.eq("gradient%d" % e, 6 * dot(col, x[t[b]] - x[t[0]]), -V6 * ((a == b) - (a == 0)))
        for b in range(1, 4):
            c.eq("edges%d" % e, [D[e][k][b - 1] for k in range(3)], x[t[b]] - x[t[0]])


@harness("D02", "Native.compute_D Native.compute_inverse_D0", "every tetrahedron, degenerate and inverted ones included")
def degenerate_elements_are_rejected(c):
    N = c.mod(SO).Native
    x = nodes(c, "x", 4)
    f = c.choose("function", ["compute_D", "compute_inverse_D0"])
    raised = False
    try:
        out = getattr(N, f)(x, T_of(c, [[0, 1, 2, 3]]))
    except RuntimeError:
        raised = True
    V6 = six_volume(c, x, [0, 1, 2, 3])
    c.prove("rejected_iff_not_positive", V6 <= 0 if raised else V6 > 0)


@harness("D02", "Native.compute_deformation_gradient Native.compute_inverse_D0", "every pair of placements of a tetrahedron; two elements", time=400)
def deformation_gradient_maps_edges(c):
    N = c.mod(SO).Native
    n, T = tets(c, ["one", "face"])
    x0, x = nodes(c, "m", n), nodes(c, "x", n)
    proper(c, x0, T)
    proper(c, x, T)
    keep = copy_of(c, x)
    F = N.compute_deformation_gradient(x, T_of(c, T), N.compute_inverse_D0(x0, T_of(c, T)))
    for e, t in enumerate(T):
        for b in (1, 2, 3):
            c.eq("edge%d_%d" % (e, b), mv(c, F[e], x0[t[b]] - x0[t[0]]), x[t[b]] - x[t[0]])
    c.eq("input_kept", x, keep)


@harness("D02", "Native.compute_elastic_forces Native.compute_deformation_gradient Native.compute_outward_face_vectors volume_mesh.compute_volumes", "one element: every material and spatial placement, every stress matrix: nodal forces do minus the work of the stress in every nodal displacement (with D01: minus the energy gradient)", time=400, cost=3)
def forces_do_the_work_of_the_stress(c):
    N, VM = c.mod(SO).Native, c.mod("rainbow.geometry.volume_mesh")
    T = T_of(c, [[0, 1, 2, 3]])
    x0, x = nodes(c, "m", 4), nodes(c, "x", 4)
    proper(c, x0, T)
    proper(c, x, T)
    P = mat3(c, "P")
    la, mu = c.real("la", 0, 5), c.real("mu", 0, 5)
    inv, vol, g = N.compute_inverse_D0(x0, T), VM.compute_volumes(x0, T), N.compute_outward_face_vectors(x0, T)
    seen = []

    def stress(F, a, b):
        seen.append((F, a, b))
        return P
    F = N.compute_deformation_gradient(x, T, inv)
    Fe = N.compute_elastic_forces(x, T, g, F, la, mu, stress)
    c.prove("one_call", len(seen) == 1)
    c.eq("material_constants", [seen[0][1], seen[0][2]], [la, mu])
    c.eq("argument", seen[0][0], F[0])
    xs = [x[i][k] for i in range(4) for k in range(3)]

    def grad(v):
        return N.compute_deformation_gradient(c.array([list(v[3 * i:3 * i + 3]) for i in range(4)]), T, inv)[0]
    _, d = c.deriv(grad, xs)
    for k in range(12):
        w = sum(P[i][j] * d[k][i][j] for i in range(3) for j in range(3))
        c.eq("work%d" % k, Fe[k // 3][k % 3], -vol[0] * w)


@harness("D02", "Native.compute_elastic_forces Native.compute_elastic_energy mechanics.SVK", "the unit tetrahedron deformed in every way, St. Venant-Kirchhoff and stable Neo-Hookean material with every Lame constant", tol=1e-3, time=400)
def forces_are_minus_the_energy_gradient(c):
    N, VM = c.mod(SO).Native, c.mod("rainbow.geometry.volume_mesh")
    M = getattr(c.mod(MECH), c.choose("model", ["SVK", "SNH"]))
    T = T_of(c, [[0, 1, 2, 3]])
    x0, x = c.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]), nodes(c, "x", 4)
    proper(c, x, T)
    la, mu = c.real("la", 0.1, 5), c.real("mu", 0.1, 5)
    inv, vol, g = N.compute_inverse_D0(x0, T), VM.compute_volumes(x0, T), N.compute_outward_face_vectors(x0, T)
    Fe = N.compute_elastic_forces(x, T, g, N.compute_deformation_gradient(x, T, inv), la, mu, M.pk1_stress)

    def energy(v):
        F = N.compute_deformation_gradient(c.array([list(v[3 * i:3 * i + 3]) for i in range(4)]), T, inv)
        return N.compute_elastic_energy(vol, F, la, mu, M.energy_density)
    _, d = c.deriv(energy, [x[i][k] for i in range(4) for k in range(3)])
    for k in range(12):
        c.eq("gradient%d" % k, Fe[k // 3][k % 3], -d[k])


@harness("D02", "Native.compute_elastic_forces", "1..3 elements in six connectivities; every placement, every symmetric second Piola-Kirchhoff stress per element", time=400)
def no_net_force_or_torque(c):
    N = c.mod(SO).Native
    n, T = tets(c, ["one", "edge", "face"])
    x = nodes(c, "x", n)
    S = [symmetric(c, "S%d" % e) for e in range(len(T))]
    # material placements: a fixed regular one per element keeps the identity polynomial; the first element is arbitrary when alone
    m = nodes(c, "m", n) if len(T) == 1 else c.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [2, 0, 1]][:n])
    if len(T) == 1:
        proper(c, m, T)
    Tm = [list(t) for t in T]
    for t in Tm:
        if len(T) > 1 and bool(six_volume(c, m, t) <= 0):
            t[1], t[2] = t[2], t[1]
    proper(c, x, Tm)
    Ta = T_of(c, Tm)
    g = N.compute_outward_face_vectors(m, Ta)
    F = N.compute_deformation_gradient(x, Ta, N.compute_inverse_D0(m, Ta))
    k = [0]

    def stress(G, a, b):
        k[0] += 1
        return mm(c, G, S[k[0] - 1])
    Fe = N.compute_elastic_forces(x, Ta, g, F, 1, 1, stress)
    c.eq("force", [sum(Fe[i][j] for i in range(n)) for j in range(3)], [0, 0, 0])
    tq = c.array([0, 0, 0])
    for i in range(n):
        tq = tq + cross(c, x[i], Fe[i])
    c.eq("torque", tq, [0, 0, 0])


@harness("D02", "Native.compute_elastic_forces Native.compute_gravity_forces Native.compute_damping_forces Native.compute_elastic_energy", "six connectivities of 1..3 elements, arbitrary face vectors, stresses, element matrices, densities and volumes")
def global_forces_are_the_sum_over_elements(c):
    N = c.mod(SO).Native
    n, T = tets(c)
    Ta, K = T_of(c, T), len(T)
    P = [mat3(c, "P%d" % e) for e in range(K)]
    g = c.array([[arb(c, "g%d%d" % (e, i), 4) for i in range(3)] for e in range(K)])
    F = c.array([[[e, 0, 0], [0, 1, 0], [0, 0, 1]] for e in range(K)])
    x = c.np.zeros((n, 3))

    def which(G):
        return int(G[0][0]) if not hasattr(G[0][0], "n") else int(G[0][0].const_value())
    Fe = N.compute_elastic_forces(x, Ta, g, F, 1, 1, lambda G, a, b: P[which(G)])
    want = [[0, 0, 0] for _ in range(n)]
    for e, t in enumerate(T):
        for a in range(4):
            f = mv(c, P[e], [g[e][k][a] for k in range(3)])
            want[t[a]] = [want[t[a]][k] + f[k] for k in range(3)]
    c.eq("elastic", Fe, want)
    vol, rho, gr = [c.pos("v%d" % e) for e in range(K)], c.real("rho", 0, 10), c.vec("gravity")
    Fg = N.compute_gravity_forces(n, Ta, c.array(vol), rho, gr)
    want = [[0, 0, 0] for _ in range(n)]
    for e, t in enumerate(T):
        for a in range(4):
            want[t[a]] = [want[t[a]][k] + rho * vol[e] * gr[k] / 4 for k in range(3)]
    c.eq("gravity", Fg, want)
    c.eq("weight", [sum(Fg[i][k] for i in range(n)) for k in range(3)], [rho * sum(vol) * gr[k] for k in range(3)])
    w = [c.real("w%d" % e, -2, 2) for e in range(K)]
    E = N.compute_elastic_energy(c.array(vol), F, 1, 1, lambda G, a, b: w[which(G)])
    c.eq("energy", E, sum(w[e] * vol[e] for e in range(K)))


def element_array(c, K, name):
    return c.array([[[[[c.real("%s%d%d%d%d%d" % (name, e, i, j, p, q), -2, 2) for q in range(3)] for p in range(3)] for j in range(4)] for i in range(4)] for e in range(K)])


def assembled(c, n, T, A):
    M = [[0] * (3 * n) for _ in range(3 * n)]
    for e, t in enumerate(T):
        for i in range(4):
            for j in range(4):
                for p in range(3):
                    for q in range(3):
                        M[3 * t[i] + p][3 * t[j] + q] = M[3 * t[i] + p][3 * t[j] + q] + A[e][i][j][p][q]
    return M


@harness("D02", "ElementArrayUtil.prod_mat_vec ElementArrayUtil.assembly_coo ElementArrayUtil.assembly_csr Native.compute_damping_forces", "six connectivities of 1..3 elements, arbitrary element matrices and vectors", time=300)
def assembly(c):
    S = c.mod(SO)
    n, T = tets(c)
    Ta, K = T_of(c, T), len(T)
    A = element_array(c, K, "A")
    keep = copy_of(c, A)
    M = assembled(c, n, T, A)
    x = nodes(c, "x", n)
    flat = [x[i][k] for i in range(n) for k in range(3)]
    want = [sum(M[r][s] * flat[s] for s in range(3 * n)) for r in range(3 * n)]
    U = S.ElementArrayUtil
    c.eq("product_rows", U.prod_mat_vec(Ta, A, x), [want[3 * i:3 * i + 3] for i in range(n)])
    c.eq("product_flat", U.prod_mat_vec(Ta, A, c.array(flat)), want)
    row, col, data = U.assembly_coo(Ta, A)
    c.prove("no_duplicates", len(set((int(a), int(b)) for a, b in zip(row, col))) == len(row) == len(col) == len(data))
    G = [[0] * (3 * n) for _ in range(3 * n)]
    for a, b, d in zip(row, col, data):
        G[int(a)][int(b)] = d
    c.eq("triplets", G, M)
    C = U.assembly_csr(n, Ta, A)
    c.prove("shape", tuple(C.shape) == (3 * n, 3 * n))
    c.eq("csr", C.toarray(), M)
    c.eq("damping", S.Native.compute_damping_forces(Ta, A, x), [[-w for w in want[3 * i:3 * i + 3]] for i in range(n)])
    c.eq("elements_kept", A, keep)


@harness("D02", "Native.compute_mass_element_array Native.compute_damping_element_array", "1..3 elements, every density/viscosity and volume, lumped and consistent; every nodal velocity")
def mass_and_damping_elements(c):
    N = c.mod(SO).Native
    f = c.choose("matrix", ["compute_mass_element_array", "compute_damping_element_array"])
    lumped = c.choose("lumped", [True, False])
    K = c.choose("elements", [1, 3])
    rho, vol = c.pos("rho"), [c.pos("v%d" % e) for e in range(K)]
    A = getattr(N, f)(rho, c.array(vol), T_of(c, [[0, 1, 2, 3]] * K), lumped)
    c.prove("shape", A.shape == (K, 4, 4, 3, 3))
    u = nodes(c, "u", 4)
    for e in range(K):
        for i in range(4):
            for j in range(4):
                c.eq("symmetric", A[e][i][j], tr(c, A[e][j][i]))
        for p in range(3):
            for q in range(3):
                c.eq("total", sum(A[e][i][j][p][q] for i in range(4) for j in range(4)), rho * vol[e] if p == q else 0)
        quad = sum(dot(u[i], mv(c, A[e][i][j], u[j])) for i in range(4) for j in range(4))
        # consistent: exact integral of rho |v|^2 of the linear field; lumped: a quarter of the mass per node
        sq = sum(dot(u[i], u[i]) for i in range(4))
        if lumped:
            c.eq("quadratic_form", 4 * quad, rho * vol[e] * sq)
        else:
            t = u[0] + u[1] + u[2] + u[3]
            c.eq("quadratic_form", 20 * quad, rho * vol[e] * (sq + dot(t, t)))


@harness("D02", "Native.compute_traction_forces", "up to two loaded triangles (sharing nodes or not), every placement and load")
def traction(c):
    N = c.mod(SO).Native
    TC = c.mod(ST).TractionCondition
    tri = c.choose("triangles", [[], [(0, 1, 2)], [(0, 1, 2), (2, 1, 3)], [(3, 4, 1), (0, 2, 5)]])
    x = nodes(c, "x", 6)
    keep = copy_of(c, x)
    loads = [c.vec("load%d" % i) for i in range(len(tri))]
    Ft = N.compute_traction_forces(x, [TC(*t, load=l) for t, l in zip(tri, loads)])
    want = [[0] * 3 for _ in range(6)]
    for t, l in zip(tri, loads):
        cr = cross(c, x[t[1]] - x[t[0]], x[t[2]] - x[t[0]])
        A = c.np.linalg.norm(cr) / 2
        for v in t:
            want[v] = [want[v][k] + A * l[k] / 3 for k in range(3)]
    c.eq("area_times_load_in_thirds", Ft, want)
    c.eq("input_kept", x, keep)


# ---- whole world ---------------------------------------------------------------------------------
def two_bodies(c, small=True):
    """two bodies with arbitrary element data: a (one element), b (two elements), in either order of creation"""
    SH = c.mod("rainbow.geometry.spatial_hashing")
    c.patch(SH, "HashGird", lambda *a, **k: None)
    TY = c.mod(ST)
    e = TY.Engine()
    first = c.choose("first", ["a", "b"])
    off = 0
    for name in (["a", "b"] if first == "a" else ["b", "a"]):
        n, T = MESHES["one" if name == "a" else "face"]
        b = TY.SoftBody(name)
        b.idx = len(e.bodies)
        e.bodies[name] = b
        b.T = T_of(c, T)
        b.offset = off
        off += n
        b.x, b.u = nodes(c, "x" + name, n), nodes(c, "u" + name, n)
        b.x0 = b.x
        b.vol0 = c.array([c.pos("vol%s%d" % (name, i)) for i in range(len(T))])
        b.material_description = TY.MaterialDescription()
        b.material_description.rho = c.pos("rho" + name)
        b.gravity = c.vec("g" + name)
    e.number_of_nodes = off
    return e


@harness("D02", "solver.compute_mass_matrix ElementArrayUtil.assembly_coo", "two bodies of one and two elements in both orders, arbitrary element matrices", time=300)
def world_mass_matrix(c):
    S = c.mod(SO)
    e = two_bodies(c)
    N = e.number_of_nodes
    want = [[0] * (3 * N) for _ in range(3 * N)]
    for b in e.bodies.values():
        b.M_array = element_array(c, len(b.T), "M" + b.name)
        n = len(b.x)
        M = assembled(c, n, b.T, b.M_array)
        for i in range(3 * n):
            for j in range(3 * n):
                want[3 * b.offset + i][3 * b.offset + j] = M[i][j]
    M = S.compute_mass_matrix(e, {}, c.choose("debug", [False, True]))
    c.prove("shape", tuple(M.shape) == (3 * N, 3 * N))
    c.eq("blocks", M.toarray(), want)


@harness("D02", "solver.compute_elastic_forces solver.compute_traction_forces solver.compute_damping_forces solver.compute_external_forces", "two bodies in both orders; every state; the element kernels (checked above) are recorded stand-ins")
def world_forces_go_to_their_own_body(c):
    S, TY = c.mod(SO), c.mod(ST)
    e = two_bodies(c)
    N = S.Native
    calls = []

    def kernel(name):
        def f(*a):
            calls.append((name, a))
            n = {"compute_gravity_forces": a[0]}.get(name) or len(a[0] if name != "compute_damping_forces" else a[2])
            return c.array([[c.real("%s%d_%d%d" % (name[8:11], len(calls), i, k), -2, 2) for k in range(3)] for i in range(n)])
        return staticmethod(f)
    for k in ("compute_elastic_forces", "compute_traction_forces", "compute_damping_forces", "compute_gravity_forces"):
        c.patch(N, k, kernel(k))
    c.patch(N, "compute_deformation_gradient", staticmethod(lambda x, T, inv: ("F", x, T, inv)))
    for b in e.bodies.values():
        b.invD0, b.gradN0, b.C_array = "inv" + b.name, "grad" + b.name, "C" + b.name
        m = b.material_description
        m.E, m.nu = c.pos("E" + b.name), c.real("nu" + b.name, 0, 0.4)
        m.constitutive_model = type("Model", (), dict(pk1_stress="stress" + b.name))
        b.traction_conditions = ["traction" + b.name]
    n = e.number_of_nodes
    x, u = nodes(c, "X", n), nodes(c, "U", n)
    which = c.choose("force", ["elastic", "traction", "damping", "external"])
    if which == "external":
        out = S.compute_external_forces(e, {}, False)
    else:
        out = getattr(S, "compute_%s_forces" % which)(u if which == "damping" else x, e, {}, False)
    field = {"elastic": "Fe", "traction": "Ft", "damping": "Fd", "external": "Fext"}[which]
    c.prove("one_call_per_body", len(calls) == 2)
    c.prove("shape", out.shape == (n, 3))
    for (name, a), b in zip(calls, e.bodies.values()):
        lo, hi = b.offset, b.offset + len(b.x)
        c.eq("slot_" + b.name, out[lo:hi], getattr(b, field))
        m = b.material_description
        if which == "elastic":
            c.eq("positions", a[0], x[lo:hi])
            c.prove("mesh", a[1] is b.T and a[2] == b.gradN0 and a[6] == "stress" + b.name)
            F = a[3]
            c.eq("gradient_positions", F[1], x[lo:hi])
            c.prove("gradient_mesh", F[2] is b.T and F[3] == b.invD0)
            M = c.mod(MECH)
            c.eq("lame", [a[4], a[5]], [M.first_lame(m.E, m.nu), M.second_lame(m.E, m.nu)])
        elif which == "traction":
            c.eq("positions", a[0], x[lo:hi])
            c.prove("conditions", a[1] is b.traction_conditions)
        elif which == "damping":
            c.eq("velocities", a[2], u[lo:hi])
            c.prove("mesh", a[0] is b.T and a[1] == b.C_array)
        else:
            c.eq("data", [a[0], a[3]], [hi - lo, m.rho])
            c.eq("gravity", a[4], b.gravity)
            c.prove("mesh", a[1] is b.T and a[2] is b.vol0)


@harness("D02", "solver.compute_potential_energy solver.compute_kinetic_energy solver.compute_external_forces", "two bodies in both orders, fixed or free, every state", tol=1e-4)
def energies(c):
    S = c.mod(SO)
    e = two_bodies(c)
    for b in e.bodies.values():
        b.is_fixed = c.choose("fixed_" + b.name, [False, True])
    dbg = c.choose("debug", [False, True])
    V, K = S.compute_potential_energy(e, {}, dbg), S.compute_kinetic_energy(e, {}, dbg)
    wantV = wantK = 0
    for b in e.bodies.values():
        if b.is_fixed:
            continue
        for t, v in zip(b.T, b.vol0):
            m = b.material_description.rho * v
            cen = (b.x[t[0]] + b.x[t[1]] + b.x[t[2]] + b.x[t[3]]) / 4
            vel = (b.u[t[0]] + b.u[t[1]] + b.u[t[2]] + b.u[t[3]]) / 4
            wantV = wantV - m * dot(b.gravity, cen)
            wantK = wantK + m * dot(vel, vel) / 2
    c.eq("potential_is_minus_work_of_weight", V, wantV)
    c.eq("kinetic_of_element_centres", K, wantK)


@harness("D02", "Native.apply_dirichlet_conditions", "systems of 3 nodes, every matrix, right hand side and set of prescribed nodes", may_be_empty=True)
def dirichlet_rows(c):
    S, TY = c.mod(SO), c.mod(ST)
    A, b = c.mat("A", 9, 9), c.array(arb(c, "b"))
    ids = c.choose("nodes", [[], [1], [2, 0], [0, 1, 2]])
    vals = [c.vec("value%d" % i) for i in ids]
    A0, b0 = copy_of(c, A), copy_of(c, b)
    S.Native.apply_dirichlet_conditions([TY.DirichletCondition(i, v) for i, v in zip(ids, vals)], A, b)
    for r in range(9):
        if r // 3 in ids:
            c.eq("row%d" % r, A[r], [1 if k == r else 0 for k in range(9)])
            c.eq("value%d" % r, b[r], vals[ids.index(r // 3)][r % 3])
        else:
            c.eq("row%d" % r, A[r], A0[r])
            c.eq("value%d" % r, b[r], b0[r])
