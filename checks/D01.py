"""Hyperelastic materials of the deformable body simulator: stress is the gradient of the energy, frame invariance, rest state."""
from symx.harness import harness
from common import *
MECH = "rainbow.simulators.prox_soft_bodies.mechanics"
NOTE = """Real arithmetic.  Every deformation gradient of positive determinant (corotational model: principal stretches in 0.1..10, with the eigen decomposition of F^T F as the library contract), Lame constants from 0 resp. 0.01 up.  The derivative identities are exact derivatives of the executed energy."""
MODELS = ["SVK", "SNH", "COR"]


def lame(c):
    return c.real("lambda", 0.01, 10), c.real("mu", 0.01, 10)


def deformation(c):
    F = c.mat("F", 3, 3)
    c.assume(det3(F) >= 0.001)
    return F


def contract2(A, B):
    return sum(A[i][j] * B[i][j] for i in range(3) for j in range(3))


@harness("D01", "mechanics.SVK mechanics.SNH", "every deformation gradient with determinant >= 0.001, every Lame constant", tol=1e-4)
def stress_is_energy_gradient(c):
    M = getattr(c.mod(MECH), c.choose("model", MODELS[:2]))
    la, mu = lame(c)
    F = deformation(c)
    xs = [F[i][j] for i in range(3) for j in range(3)]

    def psi(v):
        return M.energy_density(c.array([list(v[0:3]), list(v[3:6]), list(v[6:9])]), la, mu)
    keep = copy_of(c, F)
    P = M.pk1_stress(F, la, mu)
    _, d = c.deriv(psi, xs)
    for k in range(9):
        c.eq("gradient", P[k // 3][k % 3], d[k])
    c.eq("input_kept", F, keep)
    PF = mm(c, P, tr(c, F))
    c.eq("moment_balance", PF, tr(c, PF))


@harness("D01", "mechanics.SVK mechanics.SNH", "every deformation gradient, Lame constant and pair of rotations", time=600)
def frame_invariance(c):
    M = getattr(c.mod(MECH), c.choose("model", MODELS[:2]))
    la, mu = lame(c)
    F = deformation(c)
    Q = R_of(c, c.quat("q"))
    side = c.choose("side", ["world", "material"])
    G = mm(c, Q, F) if side == "world" else mm(c, F, Q)
    P, PG = M.pk1_stress(F, la, mu), M.pk1_stress(G, la, mu)
    c.eq("energy", M.energy_density(G, la, mu), M.energy_density(F, la, mu))
    c.eq("stress", PG, mm(c, Q, P) if side == "world" else mm(c, P, Q))


@harness("D01", "mechanics.SVK mechanics.SNH mechanics.COR", "every rotation, every Lame constant")
def rigid_motion_is_stress_free(c):
    name = c.choose("model", MODELS)
    M = getattr(c.mod(MECH), name)
    la, mu = lame(c)
    R = R_of(c, c.quat("q"))
    if name == "COR":
        eig_known(c, [1, 1, 1], eye(c), names=("eigh",), perms=[(0, 1, 2)])
    c.eq("stress", M.pk1_stress(R, la, mu), [[0] * 3] * 3)
    if name != "SNH":
        c.eq("energy", M.energy_density(R, la, mu), 0)
    else:
        c.eq("energy", M.energy_density(R, la, mu), M.energy_density(eye(c), la, mu))


@harness("D01", "mechanics.SVK mechanics.COR", "every deformation gradient / principal stretches 0.1..10, every Lame constant")
def energy_is_non_negative(c):
    name = c.choose("model", ["SVK", "COR"])
    M = getattr(c.mod(MECH), name)
    la, mu = lame(c)
    if name == "SVK":
        F = deformation(c)
        W = M.energy_density(F, la, mu)
        E = (mm(c, tr(c, F), F) - eye(c)) / 2
        t = E[0][0] + E[1][1] + E[2][2]
        c.eq("sum_of_squares", W, la / 2 * t * t + mu * contract2(E, E))
    else:
        s = [c.real("s%d" % i, 0.1, 10) for i in range(3)]
        eig_known(c, [x * x for x in s], eye(c), names=("eigh",), perms=[(0, 1, 2)])
        W = M.energy_density(c.array([[s[i] if i == j else 0 for j in range(3)] for i in range(3)]), la, mu)
        t = s[0] + s[1] + s[2] - 3
        c.eq("sum_of_squares", W, la / 2 * t * t + mu * sum((x - 1) * (x - 1) for x in s))


def known(c, w, V):
    """eigh of V diag(w) V^T, kept as a function of the inputs so that it can be differentiated"""
    def eigh(A):
        D = c.array([[w[i] if i == j else 0 for j in range(3)] for i in range(3)])
        c.eq("eigen_argument", A, mm(c, V, mm(c, D, tr(c, V))))
        return c.array(list(w)), V
    if c.sym:
        c.stub(c.np.linalg, "eigh", eigh)


@harness("D01", "mechanics.COR matrix3.polar_decomposition", "every F = R V diag(s) V^T with stretches s in 0.1..10, R any rotation and V about z, or V any rotation and R about x", time=600, cost=5)
def corotational(c):
    M = c.mod(MECH).COR
    la, mu = lame(c)
    if c.choose("axes", ["world", "principal"]) == "world":
        R, V = R_of(c, c.quat("q")), rz(c, c.angle("t"))
    else:
        R, V = rx(c, c.angle("t")), R_of(c, c.quat("q"))
    s = [c.real("s%d" % i, 0.1, 10) for i in range(3)]
    diag = lambda d: mm(c, V, mm(c, c.array([[d[i] if i == j else 0 for j in range(3)] for i in range(3)]), tr(c, V)))
    F = mm(c, R, diag(s))
    known(c, [x * x for x in s], V)
    keep = copy_of(c, F)
    t = s[0] + s[1] + s[2] - 3
    W = mu * sum((x - 1) * (x - 1) for x in s) + la / 2 * t * t
    c.eq("energy", M.energy_density(F, la, mu), W)
    # gradient of W(s1, s2, s3): an isotropic function has the gradient R V diag(dW/ds) V^T
    p = [la * t + 2 * mu * (x - 1) for x in s]
    c.eq("stress", M.pk1_stress(F, la, mu), mm(c, R, diag(p)))
    c.eq("input_kept", F, keep)


@harness("D01", "mechanics.COR", "deformations Rz(a) Rx(b) diag(s) Rx(b)^T, derivatives along both angles and the stretches", tol=1e-3, time=600)
def corotational_stress_is_energy_gradient(c):
    M = c.mod(MECH).COR
    la, mu = lame(c)
    a, b = c.real("a", -1, 1), c.real("b", -1, 1)
    s = [c.real("s%d" % i, 0.2, 5) for i in range(3)]

    def F(v):
        V = rx(c, v[1])
        return mm(c, rz(c, v[0]), mm(c, V, mm(c, c.array([[v[2 + i] if i == j else 0 for j in range(3)] for i in range(3)]), tr(c, V))))

    def psi(v):
        known(c, [v[2 + i] * v[2 + i] for i in range(3)], rx(c, v[1]))
        return M.energy_density(F(v), la, mu)
    xs = [a, b] + s
    P = None
    _, dF = c.deriv(lambda v: F(v), xs)
    _, dW = c.deriv(psi, xs)
    P = M.pk1_stress(F(xs), la, mu)
    for k in range(5):
        c.eq("along%d" % k, dW[k], contract2(P, dF[k]))


@harness("D01", "mechanics.right_cauchy_strain_tensor mechanics.green_strain_tensor mechanics.first_lame mechanics.second_lame", "every F; Young modulus > 0, Poisson ratio 0..0.49")
def strains_and_constants(c):
    M = c.mod(MECH)
    F = c.mat("F", 3, 3)
    C = mm(c, tr(c, F), F)
    c.eq("right_cauchy", M.right_cauchy_strain_tensor(F), C)
    c.eq("green", M.green_strain_tensor(F) * 2, C - eye(c))
    E, nu = c.real("E", 0.01, 10), c.real("nu", 0, 0.49)
    la, mu = M.first_lame(E, nu), M.second_lame(E, nu)
    c.eq("young", E * (la + mu), mu * (3 * la + 2 * mu))
    c.eq("poisson", 2 * nu * (la + mu), la)
    c.prove("positive", c.all(mu > 0, la >= 0))


@harness("D01", "mechanics.cauchy_stress_tensor", "stacks of 1..3 deformations (determinant >= 0.001) and symmetric stresses")
def cauchy_stress_of_stacks(c):
    M = c.mod(MECH)
    n = c.choose("n", [1, 2, 3])
    Fs, Ss = [], []
    for k in range(n):
        F = c.mat("F%d" % k, 3, 3)
        c.assume(det3(F) >= 0.001)
        u = [c.real("S%d_%d" % (k, i), -2, 2) for i in range(6)]
        Fs.append(F)
        Ss.append(c.array([[u[0], u[1], u[2]], [u[1], u[3], u[4]], [u[2], u[4], u[5]]]))
    out = M.cauchy_stress_tensor(c.array([[list(r) for r in F] for F in Fs]), c.array([[list(r) for r in S] for S in Ss]))
    c.prove("shape", out.shape == (n, 3, 3))
    for k in range(n):
        J = det3(Fs[k])
        want = mm(c, Fs[k], mm(c, Ss[k], tr(c, Fs[k])))
        c.eq("push_forward%d" % k, out[k] * J, want)


