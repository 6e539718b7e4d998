"""Quaternion / rotation-matrix algebra."""
from symx.harness import harness
from common import *


@harness("Q01", "quaternion.rotate quaternion.conjugate quaternion.to_matrix quaternion.prod", "all unit quaternions, all vectors")
def rotate_is_rotation(c):
    Q = c.mod(QM)
    q = c.quat("q")
    a, b = c.vec("a"), c.vec("b")
    ra, rb = Q.rotate(q, a), Q.rotate(q, b)
    c.eq("reference", ra, mv(c, R_of(c, q), a))
    c.eq("dot", dot(ra, rb), dot(a, b))
    c.eq("handed", cross(c, ra, rb), Q.rotate(q, cross(c, a, b)))
    R = Q.to_matrix(q)
    c.eq("matrix", R, R_of(c, q))
    c.eq("orthonormal", mm(c, R, tr(c, R)), eye(c))
    c.eq("det", det3(R), 1)
    c.eq("inverse", Q.rotate(Q.conjugate(q), ra), a)
    c.eq("conj", Q.prod(q, Q.conjugate(q)), c.array([1, 0, 0, 0]))


@harness("Q01", "quaternion.prod", "all unit quaternions and all quaternions")
def product_is_composition(c):
    Q = c.mod(QM)
    p, q = c.quat("p"), c.quat("q")
    v = c.vec("v")
    pq = Q.prod(p, q)
    c.eq("compose", Q.rotate(pq, v), mv(c, R_of(c, p), mv(c, R_of(c, q), v)))
    c.eq("unit", dot(pq, pq), 1)
    a, b = c.vec("a", 4), c.vec("b", 4)
    c.eq("hamilton", Q.prod(a, b), qmul(c, a, b))
    c.eq("conjugate", Q.conjugate(a), c.array([a[0], -a[1], -a[2], -a[3]]))


@harness("Q01", "quaternion.prod_array quaternion.rotate_array", "arrays of 1..3 quaternions")
def arrays_agree(c):
    Q = c.mod(QM)
    n = c.choose("n", [1, 2, 3])
    a = c.vec("a", 4)
    B = c.mat("B", n, 4)
    left, right = Q.prod_array(a, B), Q.prod_array(B, a)
    q = c.quat("q")
    vs = c.mat("v", n, 3)
    rot = Q.rotate_array(q, vs)
    c.prove("shapes", left.shape == (n, 4) and right.shape == (n, 4) and rot.shape == (n, 3))
    for i in range(n):
        c.eq("left%d" % i, left[i], qmul(c, a, B[i]))
        c.eq("right%d" % i, right[i], qmul(c, B[i], a))
        c.eq("rot%d" % i, rot[i], mv(c, R_of(c, q), vs[i]))


@harness("Q01", "quaternion.unit quaternion.to_matrix quaternion.identity quaternion.hat", "all quaternions, unit or not, including zero")
def normalisation(c):
    Q = c.mod(QM)
    q = c.vec("q", 4)
    before = copy_of(c, q)
    u = Q.unit(q)
    c.eq("input_kept", q, before)
    n2 = dot(q, q)
    if n2 > 0:
        n = c.np.sqrt(n2)
        c.eq("unit_direction", u * n, q)
        c.eq("unit_length", dot(u, u), 1)
        c.eq("matrix", Q.to_matrix(q), R_of(c, q / n))
        h = Q.hat(q)
        c.eq("hat_orthogonal", dot(h, q), 0)
        c.eq("hat_length", dot(h, h), n2)
    else:
        c.eq("zero_is_identity", u, c.array([1, 0, 0, 0]))
        c.eq("zero_matrix", Q.to_matrix(q), eye(c))
    c.eq("identity", Q.identity(), c.array([1, 0, 0, 0]))


@harness("Q01", "quaternion.from_matrix quaternion.to_matrix", "every rotation matrix, all four branches")
def matrix_round_trip(c):
    Q = c.mod(QM)
    q = c.quat("q")
    R = R_of(c, q)
    before = copy_of(c, R)
    p = Q.from_matrix(R)
    c.eq("input_kept", R, before)
    c.eq("unit", dot(p, p), 1)
    same_rotation(c, "same", p, q)


@harness("Q01", "quaternion.Rx quaternion.Ry quaternion.Rz quaternion.Ru matrix3.Rx matrix3.Ry matrix3.Rz matrix3.Ru", "every angle, every non-zero axis")
def axis_rotations(c):
    Q, M = c.mod(QM), c.mod(M3M)
    t = c.angle("t")
    for nm, ref in (("Rx", rx), ("Ry", ry), ("Rz", rz)):
        want = ref(c, t)
        c.eq("M3." + nm, getattr(M, nm)(t), want)
        q = getattr(Q, nm)(t)
        c.eq("Q." + nm + "_unit", dot(q, q), 1)
        c.eq("Q." + nm, R_of(c, q), want)
    a = c.vec("axis")
    c.assume(dot(a, a) > 0.01)
    before = copy_of(c, a)
    n = a / c.np.sqrt(dot(a, a))
    want = rodrigues(c, t, n)
    c.eq("M3.Ru", M.Ru(t, a), want)
    q = Q.Ru(t, a)
    c.eq("Q.Ru_unit", dot(q, q), 1)
    c.eq("Q.Ru", R_of(c, q), want)
    c.eq("axis_kept", a, before)


@harness("Q01", "quaternion.to_angle_axis quaternion.Ru", "every unit quaternion")
def angle_axis_round_trip(c):
    Q = c.mod(QM)
    q = c.quat("q")
    v2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    theta, n = Q.to_angle_axis(q)
    c.ge("angle_lo", theta, 0)
    c.le("angle_hi", theta, 2 * c.pi)
    if v2 > 1e-6:
        c.eq("axis_unit", dot(n, n), 1)
        c.eq("rebuild", rodrigues(c, theta, n), R_of(c, q))
        p = Q.Ru(theta, n)
        c.eq("quaternion", p, q)
    else:
        c.assume(v2 == 0)
        c.eq("no_axis", n, c.array([0, 0, 0]))
        c.eq("cos", c.np.cos(theta), 1)


@harness("Q01", "quaternion.to_angle", "every rotation about every unit axis")
def angle_about_axis(c):
    Q = c.mod(QM)
    t = c.angle("t", div=2)
    n = c.unit("n")
    co, si = c.np.cos(t / 2), c.np.sin(t / 2)
    q = c.array([co, si * n[0], si * n[1], si * n[2]])
    c.assume(si * si > 1e-6)
    th = Q.to_angle(q, n)
    c.le("hi", th, c.pi)
    c.ge("lo", th, -c.pi)
    c.eq("cos", c.np.cos(th), c.np.cos(t))
    c.eq("sin", c.np.sin(th), c.np.sin(t))


@harness("Q01", "quaternion.lerp", "every pair, every parameter")
def lerp_segment(c):
    Q = c.mod(QM)
    a, b = c.vec("a", 4), c.vec("b", 4)
    t = c.real("t")
    r = Q.lerp(a, b, t)
    tc = t if c.all(t >= 0, t <= 1) else (0 if t < 0 else 1)
    c.eq("affine", r, c.array([(1 - tc) * x + tc * y for x, y in zip(a, b)]))


def _slerp_pair(c):
    a, d = c.quat("a"), c.quat("d")
    return a, qmul(c, a, d), d[0]       # b = a d, so that a.b = d0


@harness("Q01", "quaternion.slerp", "every pair of unit quaternions not nearly parallel, every t in [0,1]", time=300)
def slerp_great_circle(c):
    Q = c.mod(QM)
    a, b, d0 = _slerp_pair(c)
    t = c.real("t", 0, 1)
    c.assume(c.all(d0 * d0 <= 0.999, d0 * d0 >= 1e-6))
    r = Q.slerp(a, b, t)
    s = 1 if d0 >= 0 else -1
    om = c.np.arccos(s * d0)
    c.eq("unit", dot(r, r), 1)
    c.eq("angle_to_a", dot(r, a), c.np.cos(t * om))
    c.eq("angle_to_b", dot(r, b) * s, c.np.cos(om - t * om))


@harness("Q01", "quaternion.slerp", "end points, every pair of unit quaternions")
def slerp_end_points(c):
    Q = c.mod(QM)
    a, b, d0 = _slerp_pair(c)
    which = c.choose("end", [0, 1])
    outside = c.choose("outside", [0, 1])
    t = which + (outside if which else -outside)
    r = Q.slerp(a, b, c.array([t])[0])
    same_rotation(c, "end", r, b if which else a)


@harness("Q01", "quaternion.slerp quaternion.unit quaternion.lerp", "nearly parallel or nearly opposite pairs, every t in [0,1]", time=300)
def slerp_nearly_parallel(c):
    Q = c.mod(QM)
    a = c.quat("a")
    h = c.angle("h", div=1, pick=[5e-6, -3e-6, 3.1415926535897931 - 4e-6])               # half opening angle
    e = c.unit("e")
    co, si = c.np.cos(h), c.np.sin(h)
    c.assume(c.all(si * si <= 1e-10, si * si >= 1e-12))
    b = qmul(c, a, c.array([co, si * e[0], si * e[1], si * e[2]]))
    t = c.real("t", 0, 1)
    r = Q.slerp(a, b, t)
    c.eq("unit", dot(r, r), 1)
    c.ge("stays_between", dot(r, a) * dot(r, a), 0.999)
