"""Vector and matrix helpers."""
from symx.harness import harness
from common import *


def _nonzero(c, name="n"):
    n = c.vec(name)
    c.assume(dot(n, n) >= 1e-4)
    return n


@harness("Q05", "vector3.make_orthonormal_vectors", "every vector of length at least 0.01")
def orthonormal_vectors(c):
    V = c.mod(V3M)
    n = _nonzero(c)
    keep = copy_of(c, n)
    t, b, m = V.make_orthonormal_vectors(n)
    c.eq("input_kept", n, keep)
    ln = c.np.sqrt(dot(keep, keep))
    c.eq("normal_direction", m * ln, keep)
    for nm, x in (("t", t), ("b", b), ("n", m)):
        c.eq(nm + "_unit", dot(x, x), 1)
    c.eq("t.b", dot(t, b), 0)
    c.eq("t.n", dot(t, m), 0)
    c.eq("b.n", dot(b, m), 0)
    c.eq("right_handed", cross(c, t, b), m)


@harness("Q05", "matrix3.ortonormalize", "every matrix whose first two rows are independent")
def orthonormalize(c):
    M = c.mod(M3M)
    a0, a1, a2 = c.vec("r0"), c.vec("r1"), c.vec("r2")
    x = cross(c, a0, a1)
    c.assume(c.all(dot(a0, a0) >= 0.01, dot(x, x) >= 0.01))
    A = c.array([[v for v in a0], [v for v in a1], [v for v in a2]])
    keep = copy_of(c, A)
    R = M.ortonormalize(A)
    c.eq("rows_unit_0", dot(R[0], R[0]), 1)
    c.eq("rows_unit_1", dot(R[1], R[1]), 1)
    c.eq("orthogonal", dot(R[0], R[1]), 0)
    c.eq("right_handed", R[2], cross(c, R[0], R[1]))
    c.eq("first_row_direction", R[0] * c.np.sqrt(dot(a0, a0)), a0)
    c.eq("same_plane", dot(R[2], a1), 0)
    c.ge("same_side", dot(R[1], a1), 0)
    c.eq("input_kept", A, keep)


@harness("Q05", "vector3.less vector3.greather vector3.less_than_equal vector3.greather_than_equal", "every pair and triple of vectors")
def lexicographic_order(c):
    V = c.mod(V3M)
    a, b, d = c.vec("a"), c.vec("b"), c.vec("d")
    same = c.choose("same", [0, 1, 2, 3])      # leading components made equal so that ties are met
    b = c.array([a[i] if i < same else b[i] for i in range(3)])
    ref = lambda x, y: c.any(x[0] < y[0], c.all(x[0] == y[0], x[1] < y[1]), c.all(x[0] == y[0], x[1] == y[1], x[2] < y[2]))
    lt, gt = bool(V.less(a, b)), bool(V.greather(a, b))
    le, ge = bool(V.less_than_equal(a, b)), bool(V.greather_than_equal(a, b))
    c.prove("less_is_lexicographic", c.iff(ref(a, b), lt))
    c.prove("greater_mirrors_less", c.iff(ref(b, a), gt))
    c.prove("le_is_not_greater", le == (not gt))
    c.prove("ge_is_not_less", ge == (not lt))
    c.prove("exclusive", not (lt and gt))
    if not lt and not gt:
        c.eq("ties_are_equal", a, b)


@harness("Q05", "vector3.less", "every triple of vectors")
def order_is_transitive(c):
    V = c.mod(V3M)
    a, b, d = c.vec("a"), c.vec("b"), c.vec("d")
    if V.less(a, b):
        if V.less(b, d):
            c.prove("transitive", bool(V.less(a, d)))
    c.prove("irreflexive", not V.less(a, a))


@harness("Q05", "vector3.max_abs_component", "every vector, ties included")
def largest_component(c):
    V = c.mod(V3M)
    a = c.vec("a")
    i = V.max_abs_component(a)
    c.prove("index", i in (0, 1, 2))
    for k in range(3):
        c.le("maximal%d" % k, a[k] * a[k], a[i] * a[i])


@harness("Q05", "vector3.cross vector3.unit vector3.norm vector3.make matrix3.star matrix3.diag matrix3.diag_from_array matrix3.make matrix3.make_from_rows matrix3.make_from_cols matrix3.identity", "every vector and matrix entry")
def building_blocks(c):
    V, M = c.mod(V3M), c.mod(M3M)
    a, b, d = c.vec("a"), c.vec("b"), c.vec("d")
    c.eq("cross", V.cross(a, b), cross(c, a, b))
    c.eq("star", mv(c, M.star(a), b), cross(c, a, b))
    c.eq("star_skew", M.star(a) + tr(c, M.star(a)), c.array([[0] * 3] * 3))
    c.eq("make", V.make(a[0], a[1], a[2]), a)
    c.eq("vec4", V.make_vec4(a[0], a[1], a[2], b[0]), c.array([a[0], a[1], a[2], b[0]]))
    D = [[a[i] if i == j else 0 for j in range(3)] for i in range(3)]
    c.eq("diag", M.diag(a[0], a[1], a[2]), c.array(D))
    c.eq("diag_from_array", M.diag_from_array(a), c.array(D))
    rows = [[v for v in x] for x in (a, b, d)]
    c.eq("rows", M.make_from_rows(a, b, d), c.array(rows))
    c.eq("cols", M.make_from_cols(a, b, d), tr(c, c.array(rows)))
    c.eq("entries", M.make(*(rows[0] + rows[1] + rows[2])), c.array(rows))
    c.eq("identity", M.identity(), eye(c))
    c.eq("ijk", M.make_from_rows(V.i(), V.j(), V.k()), eye(c))
    if dot(a, a) > 1e-4:
        u = V.unit(a)
        c.eq("unit_length", dot(u, u), 1)
        c.eq("unit_direction", u * V.norm(a), a)
        c.eq("norm", V.norm(a) * V.norm(a), dot(a, a))


def _stretch(c):
    """A = Rot(q) V diag(s) V^T with s > 0: every matrix of positive determinant"""
    q, p = c.quat("q"), c.quat("p")
    s = [c.pos("s%d" % i) for i in range(3)]
    for x in s:
        c.assume(c.all(x >= 0.1, x <= 10))
    V = R_of(c, p)
    S = mm(c, V, mm(c, c.array([[s[i] if i == j else 0 for j in range(3)] for i in range(3)]), tr(c, V)))
    R = R_of(c, q)
    return mm(c, R, S), R, S, [x * x for x in s], V


@harness("Q05", "matrix3.polar_decomposition", "every matrix of positive determinant with principal stretches in [0.1, 10]", time=600, cost=5)
def polar(c):
    M = c.mod(M3M)
    A, R, S, w, V = _stretch(c)
    eig_known(c, w, V, names=("eigh",), perms=[(0, 1, 2)])
    keep = copy_of(c, A)
    r, s = M.polar_decomposition(A)
    c.eq("stretch", s, S)
    c.eq("rotation", r, R)
    c.eq("input_kept", A, keep)


@harness("Q05", "matrix3.polar_decomposition_array", "stacks of 1..2 matrices of positive determinant", time=600, cost=5)
def polar_stack(c):
    M = c.mod(M3M)
    A, R, S, w, V = _stretch(c)
    t = c.angle("t")
    n = c.choose("n", [1, 2])
    d = [c.real("d%d" % i, 0.1, 10) for i in range(3)]           # the second stretch, along the axes
    eig_known(c, w, V, names=("eigh",), perms=[(0, 1, 2)], more=[([x * x for x in d], eye(c))])
    Rs = [rz(c, t), eye(c)][:n]
    Ss = [S, c.array([[d[i] if i == j else 0 for j in range(3)] for i in range(3)])]
    As = c.array([mm(c, Rs[k], Ss[k]) for k in range(n)])
    r, s = M.polar_decomposition_array(As)
    c.prove("shapes", r.shape == (n, 3, 3) and s.shape == (n, 3, 3))
    for k in range(n):
        c.eq("stretch%d" % k, s[k], Ss[k])
        c.eq("rotation%d" % k, r[k], Rs[k])


@harness("Q05", "angle.radians_to_degrees angle.degrees_to_radians", "every angle")
def degrees(c):
    A = c.mod("rainbow.math.angle")
    x = c.real("x")
    c.eq("to_degrees", A.radians_to_degrees(x) * c.pi, 180 * x)
    c.eq("to_radians", A.degrees_to_radians(x) * 180, c.pi * x)
    c.eq("round_trip", A.degrees_to_radians(A.radians_to_degrees(x)), x)
