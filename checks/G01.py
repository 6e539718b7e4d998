"""Regular grids: indices, coordinates, trilinear interpolation and its gradient."""
from symx.harness import harness
from common import *
GM = "rainbow.geometry.grid3"
SIZES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]
BIG = SIZES + [(3, 4, 2), (4, 2, 3), (3, 3, 3)]


def make(c, sizes=SIZES, values="symbolic", shape=1):
    G = c.mod(GM)
    I, J, K = c.choose("size", BIG if c.thorough else sizes)
    lo = c.vec("lo")
    ext = c.array([c.pos("e%d" % k) for k in range(3)])
    g = G.Grid(lo, lo + ext, I, J, K)
    h = [ext[k] / (n - 1) for k, n in enumerate((I, J, K))]
    return G, g, lo, ext, h, (I, J, K)


def fill(c, g, dims, column):
    """nodal values stored as the library stores them; returns the reference lookup"""
    I, J, K = dims
    d = {}
    rows = []
    for k in range(K):
        for j in range(J):
            for i in range(I):
                v = c.real("d%d%d%d" % (i, j, k))
                d[i, j, k] = v
                rows.append([v] if column else v)
    g.values = c.array(rows)
    return d


def trilinear(d, cell, w):
    i, j, k = cell
    s, t, u = w
    r = 0
    for a in (0, 1):
        for b in (0, 1):
            for e in (0, 1):
                r = r + d[i + a, j + b, k + e] * (s if a else 1 - s) * (t if b else 1 - t) * (u if e else 1 - u)
    return r


def grad_trilinear(d, cell, w, h):
    i, j, k = cell
    out = []
    for ax in range(3):
        r = 0
        for a in (0, 1):
            for b in (0, 1):
                for e in (0, 1):
                    f = d[i + a, j + b, k + e]
                    for x, bit, which in ((0, a, w[0]), (1, b, w[1]), (2, e, w[2])):
                        f = f * ((1 if bit else -1) if x == ax else (which if bit else 1 - which))
                    r = r + f
        out.append(r / h[ax])
    return out


def point_in_cell(c, lo, h, dims):
    """a point given by its cell and its local coordinates; the cells cover the box"""
    I, J, K = dims
    cell = [c.choose("ci", list(range(I - 1))), c.choose("cj", list(range(J - 1))), c.choose("ck", list(range(K - 1)))]
    w = []
    for k in range(3):
        if c.choose("far_face%d" % k, [False, True]):
            w.append(1)
        else:
            w.append(c.real("w%d" % k, 0, 1))
            c.assume(w[k] < 1)
    return cell, w, c.array([lo[k] + (cell[k] + w[k]) * h[k] for k in range(3)])


def scalar(v):
    try:
        return v[0]
    except (TypeError, IndexError):
        return v


@harness("G01", "grid3.Grid grid3.Grid.get_linear_index grid3.Grid.is_valid_node_index",
         "grid of up to 6x6x6 nodes (every size), every pair of integer triples in -8..8")
def node_numbering(c):
    G = c.mod(GM)
    I, J, K = [c.integer("n%d" % k, 2, 6) for k in range(3)]
    g = G.Grid(c.array([0, 0, 0]), c.array([1, 1, 1]), I, J, K)
    a = [c.integer("a%d" % k, -8, 8) for k in range(3)]
    inside = c.all(*[c.all(a[k] >= 0, a[k] < n) for k, n in enumerate((I, J, K))])
    got = g.is_valid_node_index(*a)
    c.prove("valid_iff_inside", c.iff(got, inside))


@harness("G01", "grid3.Grid.get_linear_index", "every grid size up to 6x6x6, every pair of nodes", t_prove=60000)
def linear_index_is_a_bijection(c):
    G = c.mod(GM)
    I, J = [c.choose("n%d" % k, [2, 3, 4, 5, 6]) for k in range(2)]
    K = c.integer("n2", 2, 6)
    g = G.Grid(c.array([0, 0, 0]), c.array([1, 1, 1]), I, J, K)
    a = [c.integer("a%d" % k, 0, 5) for k in range(3)]
    b = [c.integer("b%d" % k, 0, 5) for k in range(3)]
    for k, n in enumerate((I, J, K)):
        c.assume(a[k] < n)
        c.assume(b[k] < n)
    la, lb = g.get_linear_index(*a), g.get_linear_index(*b)
    c.prove("in_range", c.all(la >= 0, la < I * J * K))
    same = c.all(*[a[k] == b[k] for k in range(3)])
    c.prove("injective", c.iff(la == lb, same))


@harness("G01", "grid3.Grid.get_node_coord grid3.get_nodes_array grid3.eval_on_grid grid3.Grid.get_node_value",
         "listed sizes, every box, every affine-quadratic function")
def nodes_and_sampling(c):
    G, g, lo, ext, h, (I, J, K) = make(c)
    co = [c.real("f%d" % k) for k in range(6)]
    seen = []

    def f(p):
        seen.append(1)
        return co[0] + co[1] * p[0] + co[2] * p[1] + co[3] * p[2] + co[4] * p[0] * p[1] + co[5] * p[2] * p[2]
    nodes = G.get_nodes_array(g)
    c.prove("shape", nodes.shape == (I * J * K, 3))
    G.eval_on_grid(g, f)
    c.prove("one_call_per_node", len(seen) == I * J * K)
    for k in range(K):
        for j in range(J):
            for i in range(I):
                want = c.array([lo[0] + i * h[0], lo[1] + j * h[1], lo[2] + k * h[2]])
                c.eq("coord", g.get_node_coord(i, j, k), want)
                c.eq("node_row", nodes[g.get_linear_index(i, j, k)], want)
                c.eq("node_value", scalar(g.get_node_value(i, j, k)), f(want))
    c.eq("last_node_is_max_corner", g.get_node_coord(I - 1, J - 1, K - 1), lo + ext)


@harness("G01", "grid3.Grid.get_enclosing_cell_idx", "listed sizes, every box, every point of space", minmax="fork", no_validate=False)
def enclosing_cell(c):
    G, g, lo, ext, h, dims = make(c)
    p = c.vec("p")
    cell = g.get_enclosing_cell_idx(p)
    for k, n in enumerate(dims):
        m = cell[k]
        c.prove("valid%d" % k, c.all(m >= 0, m <= n - 2))
        x = (p[k] - lo[k]) / h[k]
        c.prove("contains%d" % k, c.any(c.all(m <= x, x < m + 1), c.all(m == 0, x < 0), c.all(m == n - 2, x >= n - 1)), margin=c.no(x == n - 1))


@harness("G01", "grid3.get_value", "listed sizes, every box, every nodal value, every point of the box")
def value_inside(c):
    G, g, lo, ext, h, dims = make(c)
    column = c.choose("stored_as_column", [True, False])
    d = fill(c, g, dims, column)
    cell, w, p = point_in_cell(c, lo, h, dims)
    v = scalar(G.get_value(g, p))
    c.eq("trilinear", v, trilinear(d, cell, w))


@harness("G01", "grid3.get_gradient", "listed sizes, every box, every nodal value, every point inside a cell")
def gradient_inside(c):
    G, g, lo, ext, h, dims = make(c)
    column = c.choose("stored_as_column", [True, False])
    d = fill(c, g, dims, column)
    cell, w, p = point_in_cell(c, lo, h, dims)
    for k in range(3):
        c.assume(w[k] < 1)
    gr = G.get_gradient(g, p)
    c.prove("three_components", tuple(gr.shape) == (3,))
    c.eq("derivative_of_the_interpolant", gr, c.array(grad_trilinear(d, cell, w, h)), tol=1e-5)


@harness("G01", "grid3.get_value grid3.get_gradient", "listed sizes, every box, points anywhere outside along each axis")
def outside_extends_the_border_cell(c):
    G, g, lo, ext, h, dims = make(c)
    d = fill(c, g, dims, False)
    w, cell = [], []
    for k, n in enumerate(dims):
        side = c.choose("side%d" % k, ["below", "above", "first"])
        a = c.real("a%d" % k, 0, 3)
        if side == "below":
            cell.append(0)
            w.append(-a)
        elif side == "above":
            cell.append(n - 2)
            w.append(1 + a)
        else:
            cell.append(0)
            w.append(a / 4)
    p = c.array([lo[k] + (cell[k] + w[k]) * h[k] for k in range(3)])
    c.eq("value", G.get_value(g, p), trilinear(d, cell, w))
    c.eq("gradient", G.get_gradient(g, p), c.array(grad_trilinear(d, cell, w, h)), tol=1e-5)


@harness("G01", "grid3.get_value grid3.eval_on_grid", "listed sizes, every box, every affine function, every point of the box")
def linear_fields_reproduced(c):
    G, g, lo, ext, h, dims = make(c)
    co = [c.real("f%d" % k) for k in range(4)]

    def f(p):
        return co[0] + co[1] * p[0] + co[2] * p[1] + co[3] * p[2]
    G.eval_on_grid(g, f)
    cell, w, p = point_in_cell(c, lo, h, dims)
    c.eq("value", scalar(G.get_value(g, p)), f(p))
    c.eq("gradient", G.get_gradient(g, p), c.array(co[1:]), tol=1e-5)


@harness("G01", "grid3.is_inside", "every box, every point, every boundary width >= 0")
def inside_test(c):
    G, g, lo, ext, h, dims = make(c, SIZES[:1])
    p = c.vec("p")
    b = c.real("b", 0)
    got = G.is_inside(g, p, b)
    want = c.all(*[c.all(p[k] >= lo[k] + b, p[k] <= lo[k] + ext[k] - b) for k in range(3)])
    c.prove("iff", c.iff(got, want), margin=c.all(*[c.all(c.no(p[k] == lo[k] + b), c.no(p[k] == lo[k] + ext[k] - b)) for k in range(3)]))


@harness("G01", "grid3.Grid", "every pair of corners, sizes 0..4")
def bad_grids_are_rejected(c):
    G = c.mod(GM)
    lo, hi = c.vec("lo"), c.vec("hi")
    n = [c.integer("n%d" % k, 0, 4) for k in range(3)]
    ok = True
    try:
        G.Grid(lo, hi, *n)
    except ValueError:
        ok = False
    want = c.all(*([lo[k] <= hi[k] for k in range(3)] + [n[k] >= 2 for k in range(3)]))
    c.prove("accepted_iff_ordered_and_two_nodes", c.iff(ok, want))


@harness("G01", "grid3.create_signed_distance grid3.get_nodes_array grid3.Grid", "meshes of 1..3 vertices anywhere, every margin >= 0.001 (and negative ones), listed node counts; the distance sampling itself (libigl) is a stand-in", minmax="define")
def distance_grid_spans_the_mesh_and_its_margin(c):
    G = c.mod(GM)
    n = c.choose("vertices", [1, 2, 3])
    I, J, K = c.choose("size", [(2, 2, 2), (2, 3, 2), (2, 2, 3)] if n < 3 else [(2, 2, 2)])
    V = c.array([[c.real("v%d%d" % (i, k), -5, 5) for k in range(3)] for i in range(n)])
    keep = copy_of(c, V)
    b = c.real("margin", -1, 10)
    seen = []
    sampled = c.array([c.real("s%d" % i) for i in range(I * J * K)])

    class Igl:
        @staticmethod
        def signed_distance(P, VV, FF, *a, **k):
            seen.append((copy_of(c, P), copy_of(c, VV), FF))
            return sampled, None, None
    c.patch(G, "igl", Igl)
    F = "faces"
    if b < 0:
        try:
            G.create_signed_distance(V, F, I, J, K, b)
        except ValueError:
            return
        c.fail("negative_margin_accepted")
        return
    c.assume(b >= 0.001)
    g = G.create_signed_distance(V, F, I, J, K, b)
    c.prove("sampled_once", len(seen) == 1 and seen[0][2] is F)
    c.eq("mesh", seen[0][1], keep)
    c.prove("dims", (g.I, g.J, g.K) == (I, J, K))
    for k in range(3):
        lo, hi = keep[0][k], keep[0][k]
        for i in range(1, n):
            lo, hi = c.np.minimum(lo, keep[i][k]), c.np.maximum(hi, keep[i][k])
        c.eq("low%d" % k, g.min_coord[k], lo - b)
        c.eq("high%d" % k, g.max_coord[k], hi + b)
    for k in range(K):
        for j in range(J):
            for i in range(I):
                c.eq("node%d%d%d" % (i, j, k), seen[0][0][g.get_linear_index(i, j, k)], g.get_node_coord(i, j, k))
                c.eq("value%d%d%d" % (i, j, k), scalar(g.get_node_value(i, j, k)), sampled[i + I * (j + J * k)])
