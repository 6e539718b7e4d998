"""Exponential map."""
from symx.harness import harness
from common import *
EM = "rainbow.math.expmap"


def close(c, name, a, b, eps, scale=1):
    for i, (x, y) in enumerate(zip(list(a), list(b))):
        c.le("%s_hi[%d]" % (name, i), (x - y) * scale, eps * scale)
        c.le("%s_lo[%d]" % (name, i), (y - x) * scale, eps * scale)


@harness("Q04", "expmap.exp expmap.to_quaternion", "every rotation vector longer than 1e-6 (up to three turns)")
def exp_turns_by_length(c):
    X = c.mod(EM)
    t = c.angle("t", 1e-5, 6 * c.pi)
    n = c.unit("n")
    v = n * t
    keep = copy_of(c, v)
    co, si = c.np.cos(t / 2), c.np.sin(t / 2)
    q = X.exp(v, False)
    c.eq("exact", q, c.array([co, si * n[0], si * n[1], si * n[2]]))
    c.eq("alias", X.to_quaternion(v, False), q)
    c.eq("input_kept", v, keep)


@harness("Q04", "expmap.exp expmap.reparameterization expmap.to_matrix", "every rotation vector, up to three turns", time=300)
def folding_keeps_rotation(c):
    X = c.mod(EM)
    t = c.angle("t", 1e-5, 6 * c.pi)
    turn = 2 * c.pi
    # stay clear of whole turns, where the folded vector is shorter than the Taylor threshold
    for k in (1, 2, 3):
        c.assume(c.any(t < k * turn - 1e-4, t > k * turn + 1e-4))
    n = c.unit("n")
    v = n * t
    keep = copy_of(c, v)
    r = X.reparameterization(v)
    c.le("short", dot(r, r), c.pi * c.pi)
    c.eq("input_kept", v, keep)
    co, si = c.np.cos(t / 2), c.np.sin(t / 2)
    want = c.array([co, si * n[0], si * n[1], si * n[2]])
    q = X.exp(v)
    same_rotation(c, "same", q, want)
    c.eq("matrix", X.to_matrix(v), R_of(c, want))


@harness("Q04", "expmap.exp", "every rotation vector shorter than 1e-6, including zero")
def exp_near_zero(c):
    X = c.mod(EM)
    v = c.array([c.real("v%d" % i, -5e-7, 5e-7) for i in range(3)])
    q = X.exp(v)
    th = c.np.sqrt(dot(v, v))
    if c.sym:
        h = th / 2
        c.axiom(c.np.cos(h) <= 1)
        c.axiom(c.np.cos(h) >= 1 - h * h / 2)
    close(c, "vector", q[1:4], v / 2, 1e-13, 1000000)
    c.le("w_hi", q[0], 1, tol=1e-12)
    c.ge("w_lo", q[0], 1 - 1e-12, tol=1e-12)


@harness("Q04", "expmap.log expmap.to_expmap", "every unit quaternion off the identity and off half turns")
def log_inverts_exp(c):
    X = c.mod(EM)
    q = c.quat("q")
    c.assume(c.all(q[0] != 0, q[0] * q[0] <= 0.999999))
    keep = copy_of(c, q)
    v = X.log(q)
    c.eq("alias", X.to_expmap(q), v)
    th = c.np.sqrt(dot(v, v))
    c.le("length", th, 2 * c.pi)
    c.axiom(c.np.cos(th / 2) >= 1 - th * th / 8)
    c.eq("cos", c.np.cos(th / 2) * c.np.cos(th / 2), q[0] * q[0])
    p = X.exp(v, False)
    same_rotation(c, "same", p, q)
    c.eq("input_kept", q, keep)


@harness("Q04", "expmap.log", "the identity rotation, both signs")
def log_of_identity(c):
    X = c.mod(EM)
    s = c.choose("sign", [1, -1])
    x = c.real("unused", 0, 1)
    v = X.log(c.array([s + 0 * x, 0, 0, 0]))
    c.eq("zero", v, c.array([0, 0, 0]))


@harness("Q04", "expmap.log", "every half turn")
def log_of_half_turn(c):
    X = c.mod(EM)
    n = c.unit("n")
    v = X.log(c.array([0, n[0], n[1], n[2]]))
    c.prove("not_the_zero_vector", dot(v, v) > 0.5)
    c.eq("length", dot(v, v), c.pi * c.pi)
    for i in range(3):
        c.eq("parallel%d" % i, v[i] * v[i], c.pi * c.pi * n[i] * n[i])


def R_of_poly(c, q):
    return R_of(c, q)


def _vector(c, lo2, hi2):
    v = c.vec("v")
    n2 = dot(v, v)
    c.assume(c.all(n2 >= lo2, n2 <= hi2))
    return v


@harness("Q04", "expmap.dQdv_i", "every rotation vector of length 0.001..6 and every component", time=300)
def quaternion_derivative(c):
    X = c.mod(EM)
    v = _vector(c, 0.000001, 36)
    i = c.choose("i", [0, 1, 2])

    def f(x):
        return X.exp(c.array([x[0], x[1], x[2]]), False)
    val, d = c.deriv(f, [v[0], v[1], v[2]])
    keep = copy_of(c, v)
    c.eq("dQ", X.dQdv_i(v, i), d[i])
    c.eq("input_kept", v, keep)


@harness("Q04", "expmap.dRdv_i", "every rotation vector of length 0.001..6 and every component", time=300)
def matrix_derivative(c):
    X = c.mod(EM)
    v = _vector(c, 0.000001, 36)
    i = c.choose("i", [0, 1, 2])

    def f(x):
        q = X.exp(c.array([x[0], x[1], x[2]]), False)
        return R_of(c, q)
    val, d = c.deriv(f, [v[0], v[1], v[2]])
    c.eq("dR", X.dRdv_i(v, i), d[i])


@harness("Q04", "expmap.dQdv_i expmap.dRdv_i", "every rotation vector shorter than 1e-6, including zero")
def derivative_near_zero(c):
    X = c.mod(EM)
    n = c.unit("n")
    r = c.real("r", 0, 9e-7)
    i = c.choose("i", [0, 1, 2])
    v = n * r
    if c.sym:
        for a in range(3):
            for b in range(3):
                c.axiom(c.all(n[a] * n[b] <= 1, n[a] * n[b] >= -1))
    d = X.dQdv_i(v, i)
    e = [0, 0, 0]
    e[i] = 1
    close(c, "scalar", [d[0]], [-v[i] / 4], 1e-12, 1000000)
    close(c, "vector", d[1:4], [x * 0.5 for x in e], 1e-12, 1)
    # chain rule through the rotation matrix
    q = X.exp(v, False)
    D = X.dRdv_i(v, i)
    w, x, y, z = q
    dw, dx, dy, dz = d
    c.eq("chain", D, c.array([[-4 * (y * dy + z * dz), 2 * (dx * y + x * dy - dw * z - w * dz), 2 * (dx * z + x * dz + dw * y + w * dy)],
                              [2 * (dx * y + x * dy + dw * z + w * dz), -4 * (x * dx + z * dz), 2 * (dy * z + y * dz - dw * x - w * dx)],
                              [2 * (dx * z + x * dz - dw * y - w * dy), 2 * (dy * z + y * dz + dw * x + w * dx), -4 * (x * dx + y * dy)]]))
    D = X.dRdv_i(c.array([0, 0, 0]), i)
    c.eq("generator", D, c.array([[0, -e[2], e[1]], [e[2], 0, -e[0]], [-e[1], e[0], 0]]))


@harness("Q04", "expmap.dvdt", "every rotation vector of length 0.001..6, every angular velocity", time=300)
def rate_of_change(c):
    X = c.mod(EM)
    t = c.angle("t", 0.001, 6)
    n = c.unit("n")
    v = n * t
    w = c.vec("w")
    vdot = X.dvdt(w, v)
    co, si = c.np.cos(t / 2), c.np.sin(t / 2)
    q = c.array([co, si * n[0], si * n[1], si * n[2]])
    want = qmul(c, c.array([0, w[0], w[1], w[2]]), q) / 2
    # chain rule with the exact derivative of exp at v = t n
    nd = dot(n, vdot)
    c.eq("scalar", -si / 2 * nd, want[0])
    for k in range(3):
        c.eq("vector%d" % k, co / 2 * n[k] * nd + si / t * (vdot[k] - n[k] * nd), want[k + 1])


@harness("Q04", "expmap.dvdt", "every rotation vector shorter than 1e-6, including zero")
def rate_near_zero(c):
    X = c.mod(EM)
    v = c.array([c.real("v%d" % i, -5e-7, 5e-7) for i in range(3)])
    w = c.vec("w", 3, -2, 2)
    d = X.dvdt(w, v)
    # exact: v' = w + (w x v)/2 + O(|v|^2)
    close(c, "rate", d, w + cross(c, w, v) / 2, 1e-11, 100000)
