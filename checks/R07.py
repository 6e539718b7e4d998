"""Friction and normal projections."""
from symx.harness import harness
from common import *
RP = "rainbow.simulators.prox_rigid_bodies.prox_operators"
PP = "rainbow.simulators.proximal_contact.proximal_operators"
NOTE = """Real arithmetic, all inputs (no size bound). prox_ellipsoid is outside: it cannot be compiled by numba with the engine argument it takes
(see DESIGN.md) and no solver can call it."""


def operator(c):
    return c.mod(c.choose("module", [RP, PP])).prox_sphere


def point(c, n):
    return [c.real("%s%d" % (n, i), -5, 5) for i in range(3)]


def project(c, f, z, mu, xn):
    """value and whether z was admissible"""
    y = f(z[0], z[1], z[2], mu, xn)
    return [y[0], y[1], y[2]]


def limit(c, mu, xn):
    return mu * xn if bool(xn > 0) else 0


@harness("R07", "prox_operators.prox_sphere proximal_operators.prox_sphere", "every impulse, friction coefficient >= 0 and normal impulse (negative included)")
def admissible(c):
    f = operator(c)
    z, mu, xn = point(c, "z"), c.real("mu", 0, 3), c.real("xn", -3, 3)
    y = project(c, f, z, mu, xn)
    L = limit(c, mu, xn)
    c.le("within_the_limit", dot(y, y), L * L)
    inside = dot(z, z) <= L * L
    for i in range(3):
        c.prove("admissible_point_kept.%d" % i, c.implies(inside, y[i] == z[i]))
    # outside: on the boundary, along z
    for i in range(3):
        for j in range(i):
            c.eq("same_direction.%d%d" % (i, j), y[i] * z[j], y[j] * z[i])
    c.ge("same_sense", dot(y, z), 0)
    slack = 0 if c.sym else 1e-9
    c.prove("boundary", c.any(inside, abs(dot(y, y) - L * L) <= slack))
    c.prove("inside_or_shorter", dot(y, y) <= dot(z, z) + slack)


@harness("R07", "prox_operators.prox_sphere proximal_operators.prox_sphere", "every impulse and every competing admissible point", t_prove=60000)
def nearest(c):
    """variational inequality (y - z).(p - y) >= 0 for every admissible p: y is the nearest point"""
    f = operator(c)
    mu, xn = c.real("mu", 0, 3), c.real("xn", -3, 3)
    # z = s * unit direction: any vector
    u, s = c.unit("d"), c.real("s", 0, 8)
    z = [s * x for x in u]
    y = project(c, f, z, mu, xn)
    L = limit(c, mu, xn)
    p = point(c, "p")
    c.assume(dot(p, p) <= L * L)
    pu = dot(p, u)
    # |p.u| <= L (Cauchy-Schwarz, as an identity: |p|^2 = (p.u)^2 + |p x u|^2)
    x = cross(c, p, u)
    c.lemma_eq("lagrange", dot(p, p), pu * pu + dot(x, x))
    yu = dot(y, u)
    c.eq("y_along_u", y, [yu * t for t in u])
    c.ge("yu_nonneg", yu, 0)
    c.prove("optimal", (yu - s) * (pu - yu) >= (0 if c.sym else -1e-7))


@harness("R07", "prox_operators.prox_sphere proximal_operators.prox_sphere", "both implementations on every input; scaling and symmetry")
def agreement(c):
    f, g = c.mod(RP).prox_sphere, c.mod(PP).prox_sphere
    z, mu, xn = point(c, "z"), c.real("mu", 0, 3), c.real("xn", -3, 3)
    a, b = project(c, f, z, mu, xn), project(c, g, z, mu, xn)
    c.eq("same", a, b)
    neg = project(c, f, [-t for t in z], mu, xn)
    c.eq("odd", neg, [-t for t in a])
    perm = project(c, f, [z[2], z[0], z[1]], mu, xn)
    c.eq("isotropic", perm, [a[2], a[0], a[1]])


@harness("R07", "proximal_operators.prox_origin", "every input")
def origin(c):
    g = c.mod(PP).prox_origin
    z = point(c, "z")
    y = g(z[0], z[1], z[2], c.real("mu", 0, 3), c.real("xn", -3, 3))
    c.eq("zero", list(y), [0, 0, 0])


@harness("R07", "prox_operators.prox_sphere proximal_operators.prox_sphere", "every pair of inputs in one plane through the origin, both outside or one inside the admissible ball", t_prove=60000, time=400)
def never_further_apart(c):
    f = operator(c)
    mu, xn = c.real("mu", 0, 3), c.real("xn", 0.01, 3)
    a, b = c.real("a", 0, 8), c.real("b", 0, 8)
    co = c.real("cos", -1, 1)
    si = c.np.sqrt(1 - co * co)
    z1, z2 = [a, 0, 0], [b * co, b * si, 0]
    y1, y2 = project(c, f, z1, mu, xn), project(c, f, z2, mu, xn)
    # lengths of the images and the cosine between them are known: compare squared distances
    d2 = a * a + b * b - 2 * a * b * co
    e = [y1[i] - y2[i] for i in range(3)]
    c.le("not_further", dot(e, e), d2)
