"""Barycentric coordinates of edges, triangles and tetrahedra."""
from symx.harness import harness
from common import *
BM = "rainbow.geometry.barycentric"


def _edge(c):
    x1, u = c.vec("x"), c.vec("u")
    c.assume(dot(u, u) >= 1e-4)
    return x1, x1 + u, u


@harness("G05", "barycentric.compute_barycentric_edge", "every edge of length at least 0.01 and every point")
def edge_coordinates(c):
    B = c.mod(BM)
    x1, x2, u = _edge(c)
    m, t = c.vec("m"), c.real("t", pick=[0.3, -0.7, 1.9, 0.0, 1.0])
    p = x1 + t * u + cross(c, u, m)          # every point of space has this form
    keep = [copy_of(c, v) for v in (x1, x2, p)]
    w1, w2 = B.compute_barycentric_edge(x1, x2, p)
    c.eq("w1", w1, 1 - t)
    c.eq("w2", w2, t)
    c.eq("sum_is_one", w1 + w2, 1)
    for i in range(3):
        c.eq("input_kept%d" % i, (x1, x2, p)[i], keep[i])


@harness("G05", "barycentric.compute_barycentric_triangle", "every triangle whose normal has length at least 0.01 and every point, in its plane or off it")
def triangle_coordinates(c):
    B = c.mod(BM)
    x1, u, v = c.vec("x"), c.vec("u"), c.vec("v")
    n = cross(c, u, v)
    c.assume(c.all(dot(n, n) >= 1e-4, dot(u, u) >= 1e-4, dot(v, v) >= 1e-4))
    s, t, h = c.real("s"), c.real("t"), c.real("h")
    p = x1 + s * u + t * v + h * n            # closest point of the plane: x1 + s u + t v
    solve_contract(c, [u, v])
    w1, w2, w3 = B.compute_barycentric_triangle(x1, x1 + u, x1 + v, p)
    # the three equations of the linear system give (w2 - s) u + (w3 - t) v = k n: take products with u, v
    d = [(w2 - s) * u[i] + (w3 - t) * v[i] for i in range(3)]
    c.eq("sum_is_one", w1 + w2 + w3, 1)
    c.eq("closest_point_u", dot(d, u), 0)
    c.eq("closest_point_v", dot(d, v), 0)


def _tet(c, orient):
    """a tetrahedron of either orientation"""
    x1, u, v, w = c.vec("x"), c.vec("u"), c.vec("v"), c.vec("w")
    vol6 = dot(w, cross(c, u, v))
    c.assume(vol6 >= 0.01 if orient > 0 else vol6 <= -0.01)
    return x1, u, v, w, vol6


@harness("G05", "barycentric.compute_barycentric_tetrahedron", "every non-degenerate tetrahedron of either orientation and every point of space")
def tetrahedron_coordinates(c):
    B = c.mod(BM)
    o = c.choose("orientation", [1, -1])
    x1, u, v, w, vol6 = _tet(c, o)
    p = c.vec("p")
    solve_contract(c)
    x2, x3, x4 = x1 + u, x1 + v, x1 + w
    ws = B.compute_barycentric_tetrahedron(x1, x2, x3, x4, p)
    c.eq("sum_is_one", ws[0] + ws[1] + ws[2] + ws[3], 1)
    for i in range(3):
        c.eq("reconstructs%d" % i, ws[0] * x1[i] + ws[1] * x2[i] + ws[2] * x3[i] + ws[3] * x4[i], p[i])


@harness("G05", "barycentric.compute_barycentric_derivatives_tetrahedron", "every tetrahedron of positive volume and every direction of motion of the point")
def derivatives(c):
    B = c.mod(BM)
    x1, u, v, w, vol6 = _tet(c, 1)
    X = [x1, x1 + u, x1 + v, x1 + w]
    g = B.compute_barycentric_derivatives_tetrahedron(*X)
    # w_i is affine with gradient g_i and w_i(x_j) = delta_ij: g_i.(x_j - x_k) = delta_ij - delta_ik
    for i in range(4):
        for j in range(4):
            for k in range(j):
                c.eq("gradient%d(%d,%d)" % (i, j, k), dot(g[i], X[j] - X[k]), (1 if i == j else 0) - (1 if i == k else 0))
    for a in range(3):
        c.eq("gradients_sum_to_zero%d" % a, g[0][a] + g[1][a] + g[2][a] + g[3][a], 0)


@harness("G05", "barycentric.compute_barycentric_derivatives_tetrahedron", "every inverted or flat tetrahedron")
def derivatives_reject_inverted(c):
    B = c.mod(BM)
    x1, u, v, w = c.vec("x"), c.vec("u"), c.vec("v"), c.vec("w")
    c.assume(dot(w, cross(c, u, v)) <= 0)
    try:
        B.compute_barycentric_derivatives_tetrahedron(x1, x1 + u, x1 + v, x1 + w)
        c.fail("accepted")
    except AssertionError:
        c.prove("rejected", True)


def _fn(c, n):
    B = c.mod(BM)
    return {2: B.is_inside_edge, 3: B.is_inside_triangle, 4: B.is_inside_tetrahedron}[n]


@harness("G05", "barycentric.is_inside_edge barycentric.is_inside_triangle barycentric.is_inside_tetrahedron", "every set of coordinates that sums to one")
def inside_test(c):
    n = c.choose("corners", [2, 3, 4])
    w = [c.real("w%d" % i) for i in range(n - 1)]
    s = w[0]
    for x in w[1:]:
        s = s + x
    w.append(1 - s)
    r = _fn(c, n)(*w)
    inside = c.all(*[x >= 0 for x in w])
    if c.sym:
        c.prove("inside_iff_no_negative_coordinate", c.iff(inside, bool(r)))
    else:                                            # rounding: the coordinates of a real point need not sum to one exactly
        clear_out = any(x < -1e-9 for x in w)
        clear_in = all(x > 1e-9 for x in w) and sum(w) <= 1
        c.prove("inside_iff_no_negative_coordinate", not (clear_out and r) and not (clear_in and not r))


@harness("G05", "barycentric.is_inside_edge barycentric.is_inside_triangle barycentric.is_inside_tetrahedron", "every set of numbers, not only those that sum to one")
def inside_test_any_numbers(c):
    n = c.choose("corners", [2, 3, 4])
    w = [c.real("w%d" % i) for i in range(n)]
    r = _fn(c, n)(*w)
    s = w[0]
    for x in w[1:]:
        s = s + x
    ref = c.all(s <= 1, *[x >= 0 for x in w])
    c.prove("inside_iff_in_the_unit_simplex", c.iff(ref, bool(r)))
