"""Axis-aligned boxes and k-DOPs."""
from symx.harness import harness
from common import *
AM = "rainbow.geometry.aabb"
KM = "rainbow.geometry.kdop"
DIRS = {3: [(1, 0, 0), (0, 1, 0), (0, 0, 1)], 4: [(1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1)]}


def tol(c):
    """slack for rounding when the assertion runs on floats"""
    return 0 if c.sym else 1e-9


def is_max(c, m, xs):
    e = tol(c)
    return c.all(*([m >= x - e for x in xs] + [c.any(*[m <= x + e for x in xs])]))


def is_min(c, m, xs):
    e = tol(c)
    return c.all(*([m <= x + e for x in xs] + [c.any(*[m >= x - e for x in xs])]))


@harness("G02", "aabb.AABB.create_from_vertices", "1..4 vertices, all coordinates (thorough: 6)", minmax="define")
def box_of_vertices(c):
    A = c.mod(AM).AABB
    n = c.choose("n", [1, 2, 3, 4, 6] if c.thorough else [1, 2, 3, 4])
    V = c.mat("v", n, 3)
    as_list = c.choose("as_list", [False, True])
    b = A.create_from_vertices([[x for x in r] for r in V] if as_list else V)
    for k in range(3):
        c.prove("min%d" % k, is_min(c, b.min_point[k], [V[i][k] for i in range(n)]))
        c.prove("max%d" % k, is_max(c, b.max_point[k], [V[i][k] for i in range(n)]))


@harness("G02", "aabb.AABB.is_overlap", "every two boxes, every boundary width >= 0")
def box_overlap(c):
    A = c.mod(AM).AABB
    lo = [c.vec("lo%d" % i) for i in (0, 1)]
    hi = [c.array([lo[i][k] + c.real("w%d%d" % (i, k), 0) for k in range(3)]) for i in (0, 1)]
    kind = c.choose("boundary", ["default", "zero", "any"])
    args = () if kind == "default" else (0.0,) if kind == "zero" else (c.real("b", 0),)
    b = args[0] if kind == "any" else 0
    X, Y = A(lo[0], hi[0]), A(lo[1], hi[1])
    got = A.is_overlap(X, Y, *args)
    gaps = [lo[0][k] - b <= hi[1][k] + b for k in range(3)] + [lo[1][k] - b <= hi[0][k] + b for k in range(3)]
    strict = c.all(*[c.no(lo[i][k] - b == hi[1 - i][k] + b) for i in (0, 1) for k in range(3)])
    c.prove("iff_common_point", c.iff(got, c.all(*gaps)), margin=strict)
    c.prove("symmetric", c.iff(A.is_overlap(Y, X, *args), got), margin=strict)
    for k in range(3):
        c.eq("boxes_unchanged", X.min_point[k], lo[0][k])
        c.eq("boxes_unchanged", Y.max_point[k], hi[1][k])


def slabs(c, K, V, env):
    out = []
    for d in DIRS[K]:
        out.append([sum(d[k] * p[k] for k in range(3)) for p in V])
    return out


@harness("G02", "kdop.make kdop.get_direction_table", "K=3,4; 1..4 vertices; every envelope >= 0", minmax="define")
def kdop_bounds_tightly(c):
    D = c.mod(KM)
    K = c.choose("K", [3, 4])
    n = c.choose("n", [1, 2, 3, 4])
    V = c.mat("v", n, 3)
    e = c.real("e", 0)
    default = c.choose("default_envelope", [False, True])
    if default:
        e = 0
        d = D.make(K, V)
    else:
        d = D.make(K, V, e)
    c.prove("slabs", len(d.slabs) == K and d.K == K)
    t = D.get_direction_table(K)
    for k, xs in enumerate(slabs(c, K, V, e)):
        c.eq("direction", c.array([x for x in t[k]]), c.array(list(DIRS[K][k])))
        c.prove("lower%d" % k, is_min(c, d.slabs[k].lower + e, xs))
        c.prove("upper%d" % k, is_max(c, d.slabs[k].upper - e, xs))


def interval_dop(c, D, K, name, empty=False):
    d = D.KDOP(K)
    for k in range(K):
        x = c.real("%s.lo%d" % (name, k))
        d.slabs[k].lower = x
        d.slabs[k].upper = x + c.real("%s.w%d" % (name, k), 0)
    return d


@harness("G02", "kdop.union kdop.KDOP kdop.Interval", "K=3,4; every two k-DOPs (one may be the empty one)", minmax="define")
def kdop_union(c):
    D = c.mod(KM)
    K = c.choose("K", [3, 4])
    A, B = interval_dop(c, D, K, "a"), interval_dop(c, D, K, "b")
    U = D.union(A, B)
    E1, E2 = D.union(D.KDOP(K), A), D.union(A, D.KDOP(K))
    for k in range(K):
        c.prove("lower", is_min(c, U.slabs[k].lower, [A.slabs[k].lower, B.slabs[k].lower]))
        c.prove("upper", is_max(c, U.slabs[k].upper, [A.slabs[k].upper, B.slabs[k].upper]))
        for E in (E1, E2):
            c.eq("neutral_lower", E.slabs[k].lower, A.slabs[k].lower)
            c.eq("neutral_upper", E.slabs[k].upper, A.slabs[k].upper)


@harness("G02", "kdop.overlap", "K=3,4; every two k-DOPs")
def kdop_overlap(c):
    D = c.mod(KM)
    K = c.choose("K", [3, 4])
    A, B = interval_dop(c, D, K, "a"), interval_dop(c, D, K, "b")
    got = D.overlap(A, B)
    want = c.all(*[c.all(A.slabs[k].lower <= B.slabs[k].upper, B.slabs[k].lower <= A.slabs[k].upper) for k in range(K)])
    strict = c.all(*[c.all(c.no(A.slabs[k].lower == B.slabs[k].upper), c.no(B.slabs[k].lower == A.slabs[k].upper)) for k in range(K)])
    c.prove("iff_slabs_meet", c.iff(got, want), margin=strict)
    c.prove("symmetric", c.iff(D.overlap(B, A), got), margin=strict)


@harness("G02", "kdop.overlap kdop.make aabb.AABB.is_overlap aabb.AABB.create_from_vertices", "two triangles sharing an arbitrary point (any barycentric weights), K=3,4", minmax="define", time=300)
def touching_triangles_are_never_separated(c):
    D = c.mod(KM)
    A = c.mod(AM).AABB
    K = c.choose("K", [3, 4])
    e = c.real("e", 0)
    p = c.vec("p")

    def triangle(name):
        a, b = c.vec(name + "a"), c.vec(name + "b")
        s, t = c.pos(name + "s"), c.pos(name + "t")
        # p = (third + s (p+a) + t (p+b)) / (1 + s + t): every point of the triangle except edge a-b
        return c.array([p + a, p + b, p - s * a - t * b])
    S, T = triangle("u"), triangle("v")
    c.prove("kdops_overlap", D.overlap(D.make(K, S, e), D.make(K, T, e)))
    if K == 3:
        c.prove("boxes_overlap", A.is_overlap(A.create_from_vertices(S), A.create_from_vertices(T)))


@harness("G02", "kdop.overlap kdop.union", "K=3 against K=4")
def mismatched_kinds_are_rejected(c):
    D = c.mod(KM)
    A, B = interval_dop(c, D, 3, "a"), interval_dop(c, D, 4, "b")
    f = c.choose("f", ["overlap", "union"])
    ok = False
    try:
        getattr(D, f)(A, B)
    except RuntimeError:
        ok = True
    c.prove("rejected", ok)
