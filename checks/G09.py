"""Mean curvature of a signed distance grid."""
from symx.harness import harness
from common import *
GM = "rainbow.geometry.grid3"
CM = "rainbow.geometry.mean_curvature"


def quadratic(c, G, dims, coef):
    I, J, K = dims
    lo = c.array([c.real("lo%d" % a, -10, 10) for a in range(3)])
    h = [c.real("h%d" % k, 0.05, 10) for k in range(3)]
    g = G.Grid(lo, c.array([lo[a] + h[a] * (n - 1) for a, n in enumerate(dims)]), I, J, K)
    return g, h


def setup(c, dims, at=(1, 1, 1)):
    """nodal values = a quadratic polynomial around the chosen interior node, plus the grid"""
    G, C = c.mod(GM), c.mod(CM)
    g, h = quadratic(c, G, dims, None)
    g0, grad = c.real("g0", -10, 10), c.array([c.real("grad%d" % a, -10, 10) for a in range(3)])
    H = {}
    for a in range(3):
        for b in range(a, 3):
            H[a, b] = H[b, a] = c.real("H%d%d" % (a, b), -10, 10)
    vals = {}
    for k in range(dims[2]):
        for j in range(dims[1]):
            for i in range(dims[0]):
                e = [(i - at[0]) * h[0], (j - at[1]) * h[1], (k - at[2]) * h[2]]
                q = g0
                for a in range(3):
                    q = q + grad[a] * e[a]
                    for b in range(3):
                        q = q + H[a, b] * e[a] * e[b] / 2
                vals[i, j, k] = q
    return G, C, g, h, at, grad, H, vals


@harness("G09", "mean_curvature.create_from_sdf", "every quadratic field and every spacing on 3x3x3 to 4x3x3 grids (any axis the longer one, also at its second interior node), gradient norm at least 0.5 at the node", minmax="define", time=300)
def quadratic_fields(c):
    dims, at = c.choose("nodes", [((3, 3, 3), (1, 1, 1)), ((4, 3, 3), (2, 1, 1)), ((4, 3, 3), (1, 1, 1)), ((3, 4, 3), (1, 2, 1)), ((3, 3, 4), (1, 1, 2))])
    G, C, g, h, at, grad, H, vals = setup(c, dims, at)
    gg = dot(grad, grad)
    c.assume(gg >= 0.2501)
    flat = [None] * (dims[0] * dims[1] * dims[2])
    for (i, j, k), v in vals.items():
        flat[g.get_linear_index(i, j, k)] = v
    g.values = c.array(flat)
    keep = copy_of(c, g.values)
    kap = C.create_from_sdf(g)
    l = c.np.sqrt(gg)
    trace = H[0, 0] + H[1, 1] + H[2, 2]
    quad = 0
    for a in range(3):
        for b in range(3):
            quad = quad + grad[a] * H[a, b] * grad[b]
    num = gg * trace - quad                 # |grad|^3 div(grad / |grad|)
    hmin = c.np.minimum(c.np.minimum(h[0], h[1]), h[2])
    v = kap.get_node_value(*at)
    top = 1 / hmin
    l3 = l * gg
    c.prove("divergence_of_the_unit_normal_clipped", c.any(
        c.all(near(c, v * l3, num)),
        c.all(near(c, v, top), num >= top * l3 * (1 if c.sym else 1 - 1e-9)),
        c.all(near(c, v, -top), num <= -top * l3 * (1 if c.sym else 1 - 1e-9))))
    c.le("bounded", v, top)
    c.ge("bounded_below", v, -top)
    for i in range(dims[0]):
        for j in range(dims[1]):
            for k in range(dims[2]):
                if 0 in (i, j, k) or i == dims[0] - 1 or j == dims[1] - 1 or k == dims[2] - 1:
                    c.eq("boundary_is_zero%d%d%d" % (i, j, k), kap.get_node_value(i, j, k), 0)
    c.eq("input_kept", g.values, keep)
    c.prove("same_grid", (kap.I, kap.J, kap.K) == dims)


def near(c, a, b, e=1e-7):
    return a == b if c.sym else abs(a - b) <= e * (1 + abs(b))


@harness("G09", "mean_curvature.create_from_sdf", "every field of nodal values and every spacing on 3x3x3 grids, flat and constant fields included", minmax="define", time=300)
def always_bounded(c):
    G, C = c.mod(GM), c.mod(CM)
    dims = (3, 3, 3)
    g, h = quadratic(c, G, dims, None)
    vals = [c.real("d%d" % i, -10, 10) for i in range(27)]
    if c.choose("field", ["any", "constant"]) == "constant":
        vals = [vals[0]] * 27
    g.values = c.array(vals)
    v = C.create_from_sdf(g).get_node_value(1, 1, 1)
    hmin = c.np.minimum(c.np.minimum(h[0], h[1]), h[2])
    c.le("bounded", v, 1 / hmin)
    c.ge("bounded_below", v, -1 / hmin)
    if all(x is vals[0] for x in vals):
        c.eq("flat_field_has_none", v, 0)
