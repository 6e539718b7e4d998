"""Surface mesh generators and mesh transforms."""
from symx.harness import harness
from common import *
SM = "rainbow.geometry.surface_mesh"


def tri_list(T):
    return [tuple(int(v) for v in t) for t in T]


def closed_manifold(c, name, nv, T, euler):
    """each directed edge is used once and its reverse once, every vertex is used, Euler characteristic as expected"""
    T = tri_list(T)
    E = {}
    for t in T:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            E[(t[a], t[b])] = E.get((t[a], t[b]), 0) + 1
    c.prove(name + ".no_degenerate_triangle", all(len(set(t)) == 3 for t in T))
    c.prove(name + ".each_edge_once_per_direction", all(n == 1 and (b, a) in E for (a, b), n in E.items()))
    c.prove(name + ".all_vertices_used", sorted(set(v for t in T for v in t)) == list(range(nv)))
    c.prove(name + ".euler", nv - len(E) // 2 + len(T) == euler)


def face_side(c, V, t, x):
    """normal of the triangle times the vector from x to its first corner (positive: x is on the inner side)"""
    a, b, d = (V[i] for i in t)
    return dot(cross(c, b - a, d - a), a - c.array(x))


def _solid(c, S, kind):
    r, h = c.real("r", 0.01, 100), c.real("h", 0.01, 100)
    n = c.choose("slices", [3, 4, 6] + ([5, 8, 12] if c.thorough else []))
    if kind == "cylinder":
        k = c.choose("segments", [1, 2, 3])
        V, T = S.create_cylinder(r, h, n, k)
        return V, T, r, h, n, (0, 0, 0)
    if kind == "cone":
        V, T = S.create_cone(r, h, n)
        return V, T, r, h, n, (0, h / 4, 0)
    if kind == "sphere":
        k = c.choose("segments", [3, 4, 5, 7])
        V, T = S.create_sphere(r, n, k)
        return V, T, r, h, n, (0, 0, 0)
    if kind == "capsule":
        k = c.choose("segments", [4, 5, 7])
        V, T = S.create_capsule(r, h, n, k)
        return V, T, r, h, n, (0, 0, 0)


def _lt(c, name, a, b):
    c.prove(name, a < b)


def solid(kind):
    @harness("G07", "surface_mesh.create_%s surface_mesh.profile_sweep" % kind, "every radius and height in [0.01, 100], 3..6 slices (thorough 3..12), 1..7 segments", name=kind, time=300)
    def f(c):
        S = c.mod(SM)
        V, T, r, h, n, x = _solid(c, S, kind)
        closed_manifold(c, "closed", len(V), T, 2)
        for i, t in enumerate(tri_list(T)):
            _lt(c, "outward%d" % i, 0, face_side(c, V, t, x))
        for i, v in enumerate(V):
            rho2 = v[0] * v[0] + v[2] * v[2]
            if kind == "sphere":
                c.eq("on_sphere%d" % i, rho2 + v[1] * v[1], r * r)
            elif kind == "cylinder":
                c.le("below_top%d" % i, v[1], h / 2)
                c.le("above_bottom%d" % i, -h / 2, v[1])
                if i < len(V) - 2:
                    c.eq("on_mantle%d" % i, rho2, r * r)
                else:
                    c.eq("on_axis%d" % i, rho2, 0)
            elif kind == "cone":
                if bool(c.np.abs(v[1]) <= 1e-12):
                    c.prove("base%d" % i, c.any(rho2 - r * r == 0, rho2 == 0) if c.sym else True)
                else:
                    c.eq("apex_height%d" % i, v[1], h)
                    c.eq("apex_on_axis%d" % i, rho2, 0)
            elif kind == "capsule":
                # within the surface: distance r from the nearer cap centre, beyond the cylindrical part
                up, lo = v[1] - h / 2, v[1] + h / 2
                c.prove("on_cap%d" % i, c.any(c.all(near(c, rho2 + up * up, r * r), up >= -1e-9), c.all(near(c, rho2 + lo * lo, r * r), lo <= 1e-9)))
        if kind in ("sphere",):
            ys = [v[1] for v in V]
            c.prove("reaches_poles", c.all(c.any(*[near(c, y, r) for y in ys]), c.any(*[near(c, y, -r) for y in ys])))
        if kind in ("cylinder",):
            ys = [v[1] for v in V]
            c.prove("reaches_caps", c.all(c.any(*[near(c, y, h / 2) for y in ys]), c.any(*[near(c, y, -h / 2) for y in ys])))
        if kind in ("capsule",):
            ys = [v[1] for v in V]
            c.prove("reaches_ends", c.all(c.any(*[near(c, y, h / 2 + r) for y in ys]), c.any(*[near(c, y, -h / 2 - r) for y in ys])))
    return f


def near(c, a, b, e=1e-6):
    if c.sym:
        return a == b
    return abs(a - b) <= e * (1 + abs(b))


for _k in ("cylinder", "cone", "sphere", "capsule"):
    solid(_k)


@harness("G07", "surface_mesh.create_conical surface_mesh.profile_sweep", "every pair of radii and height in [0.01, 100], 3..6 slices (thorough 3..12)")
def conical(c):
    S = c.mod(SM)
    r, R, h = c.real("r", 0.01, 100), c.real("R", 0.01, 100), c.real("h", 0.01, 100)
    n = c.choose("slices", [3, 4, 6] + ([5, 8, 12] if c.thorough else []))
    V, T = S.create_conical(r, R, h, n)
    closed_manifold(c, "closed", len(V), T, 2)
    for i, t in enumerate(tri_list(T)):
        _lt(c, "outward%d" % i, 0, face_side(c, V, t, (0, h / 2, 0)))
    for i, v in enumerate(V):
        rho2 = v[0] * v[0] + v[2] * v[2]
        y0, y1 = near(c, v[1], 0), near(c, v[1], h)
        c.prove("corner%d" % i, c.any(c.all(y0, c.any(near(c, rho2, r * r), near(c, rho2, 0))), c.all(y1, c.any(near(c, rho2, R * R), near(c, rho2, 0)))))
    zs = [v for v in V]
    for nm, rr, y in (("lower", r, 0), ("upper", R, h)):
        c.prove(nm + "_rim", c.any(*[c.all(near(c, v[1], y), near(c, v[0] * v[0] + v[2] * v[2], rr * rr)) for v in zs]))


@harness("G07", "surface_mesh.create_ellipsoid surface_mesh.create_sphere surface_mesh.profile_sweep", "every semi axes in [0.01, 100], 3..4 slices, 3..5 segments", time=300)
def ellipsoid(c):
    S = c.mod(SM)
    a = [c.real("a%d" % i, 0.01, 100) for i in range(3)]
    n = c.choose("slices", [3, 4] + ([5, 6] if c.thorough else []))
    k = c.choose("segments", [3, 4] + ([5] if c.thorough else []))
    V, T = S.create_ellipsoid(a[0], a[1], a[2], n, k)
    closed_manifold(c, "closed", len(V), T, 2)
    for i, v in enumerate(V):
        c.eq("on_surface%d" % i, sum((v[j] / a[j]) * (v[j] / a[j]) for j in range(3)), 1)
    for i, t in enumerate(tri_list(T)):
        _lt(c, "outward%d" % i, 0, face_side(c, V, t, (0, 0, 0)))


@harness("G07", "surface_mesh.profile_sweep", "every profile of 3..4 points with positive radii between the end points, 3..4 slices: shape of the sweep")
def sweep(c):
    S = c.mod(SM)
    N = c.choose("profile", [3, 4, 5])
    J = c.choose("slices", [3, 4, 6])
    P = [c.array([c.real("r%d" % i, 0.01, 100) if 0 < i < N - 1 else 0, c.real("y%d" % i, -100, 100), 0]) for i in range(N)]
    V, T = S.profile_sweep(P, J)
    closed_manifold(c, "closed", len(V), T, 2)
    c.prove("vertices", len(V) == (N - 2) * J + 2)
    # each profile point appears on its circle at every slice angle
    for i in range(1, N - 1):
        for j in range(J):
            th = 2 * c.pi * j / J
            w = (P[i][0] * c.np.cos(th), P[i][1], -P[i][0] * c.np.sin(th))
            c.prove("ring%d_%d" % (i, j), c.any(*[c.all(*[near(c, v[k], w[k]) for k in range(3)]) for v in V]))
    ends = [V[(N - 2) * J], V[(N - 2) * J + 1]]
    for nm, e in (("first", P[0]), ("last", P[N - 1])):
        c.prove(nm, c.any(*[c.all(*[near(c, x[k], e[k]) for k in range(3)]) for x in ends]))


@harness("G07", "surface_mesh.profile_sweep", "every profile with fewer than 3 points or fewer than 3 slices", no_validate=True)
def sweep_rejects_flat(c):
    S = c.mod(SM)
    N = c.choose("profile", [0, 1, 2, 3])
    J = c.choose("slices", [0, 1, 2, 3])
    P = [c.vec("p%d" % i) for i in range(N)]
    try:
        S.profile_sweep(P, J)
        c.prove("accepted_only_proper", N >= 3 and J >= 3)
    except RuntimeError:
        c.prove("rejected_only_flat", N < 3 or J < 3)


@harness("G07", "surface_mesh.create_box", "every width, height and depth > 0")
def box(c):
    S = c.mod(SM)
    d = [c.real(n, 0.01, 100) for n in ("width", "height", "depth")]
    V, T = S.create_box(*d)
    closed_manifold(c, "closed", len(V), T, 2)
    for i, t in enumerate(tri_list(T)):
        _lt(c, "outward%d" % i, 0, face_side(c, V, t, (0, 0, 0)))
    signs = set()
    for i, v in enumerate(V):
        for k in range(3):
            c.prove("corner%d_%d" % (i, k), c.any(near(c, v[k], d[k] / 2), near(c, v[k], -d[k] / 2)))
    c.eq("volume", volume6(c, V, T), 6 * d[0] * d[1] * d[2])


def volume6(c, V, T):
    s = 0
    for t in tri_list(T):
        a, b, d = (V[i] for i in t)
        s = s + dot(a, cross(c, b, d))
    return s


@harness("G07", "surface_mesh.create_cuboid", "every image of a box under an invertible affine map of positive determinant (all boxes, rotated boxes, skewed boxes)")
def cuboid(c):
    S = c.mod(SM)
    o, u, v, w = c.vec("o"), c.vec("u"), c.vec("v"), c.vec("w")
    d = det3([u, v, w])
    c.assume(d >= 0.01)
    pt = lambda i, j, k: o + i * u + j * v + k * w
    # ccw front face (seen from outside, at k = 1): p0 p1 p2 p3; back face p4..p7 behind it
    P = [pt(0, 0, 1), pt(1, 0, 1), pt(1, 1, 1), pt(0, 1, 1), pt(0, 0, 0), pt(1, 0, 0), pt(1, 1, 0), pt(0, 1, 0)]
    V, T = S.create_cuboid(*P)
    closed_manifold(c, "closed", len(V), T, 2)
    for i in range(8):
        c.eq("corner%d" % i, V[i], P[i])
    ctr = o + u / 2 + v / 2 + w / 2
    for i, t in enumerate(tri_list(T)):
        c.eq("outward%d" % i, 2 * face_side(c, V, t, ctr), d)


@harness("G07", "surface_mesh.create_torus", "every major radius > minor radius in [0.01, 100], 3..4 segments and slices (thorough up to 6)", time=300)
def torus(c):
    S = c.mod(SM)
    r, e = c.real("r", 0.01, 100), c.real("e", 0.01, 100)
    R = r + e
    I = c.choose("segments", [3, 4] + ([6] if c.thorough else []))
    K = c.choose("slices", [3, 4] + ([6] if c.thorough else []))
    V, T = S.create_torus(R, r, I, K)
    closed_manifold(c, "closed", len(V), T, 0)
    for k in range(K):
        ph = 2 * c.pi * k / K
        co, si = c.np.cos(ph), c.np.sin(ph)
        for i in range(I):
            th = 2 * c.pi * i / I
            rho, z = R + r * c.np.cos(th), r * c.np.sin(th)
            w = (rho * co, rho * si, z)
            c.prove("vertex%d_%d" % (k, i), c.any(*[c.all(*[near(c, v[a], w[a]) for a in range(3)]) for v in V]))
    vol = volume6(c, V, T)
    _lt(c, "positive_volume", 0, vol)
    c.eq("volume", vol, 6 * K * c.np.sin(2 * c.pi / K) / 2 * _ring_moment(c, R, r, I))


def _ring_moment(c, R, r, I):
    """integral of rho^2 dz over the meridian polygon / ... : sum over polygon edges for a prism swept linearly between slices.
    Volume of one slice wedge = sin(dphi)/6 * sum over directed polygon edges (rho_a^2 + rho_a rho_b + rho_b^2)(z_b - z_a)."""
    s = 0
    for i in range(I):
        t0, t1 = 2 * c.pi * i / I, 2 * c.pi * (i + 1) / I
        ra, rb = R + r * c.np.cos(t0), R + r * c.np.cos(t1)
        za, zb = r * c.np.sin(t0), r * c.np.sin(t1)
        s = s + (ra * ra + ra * rb + rb * rb) * (zb - za)
    return s / 3


def _mesh(c, S, n=4, T=((0, 1, 2), (0, 2, 3))):
    V = c.mat("v", n, 3)
    return S.Mesh(V, c.iarray([list(t) for t in T])), V


@harness("G07", "surface_mesh.translate surface_mesh.rotate surface_mesh.scale", "every vertex set, translation, unit quaternion and scaling")
def transforms(c):
    S = c.mod(SM)
    kind = c.choose("transform", ["translate", "rotate", "scale"])
    M, V = _mesh(c, S)
    keep = copy_of(c, V)
    if kind == "translate":
        t = c.vec("t")
        S.translate(M, t)
        want = [keep[i] + t for i in range(4)]
    elif kind == "rotate":
        q = c.quat("q")
        S.rotate(M, q)
        R = R_of(c, q)
        want = [mv(c, R, keep[i]) for i in range(4)]
    else:
        s = c.vec("s")
        S.scale(M, s[0], s[1], s[2])
        want = [c.array([keep[i][k] * s[k] for k in range(3)]) for i in range(4)]
    for i in range(4):
        c.eq("vertex%d" % i, M.V[i], want[i])
    c.prove("triangles_kept", tri_list(M.T) == [(0, 1, 2), (0, 2, 3)])
    c.eq("source_array_kept", V, keep)          # the mesh owns a copy


@harness("G07", "surface_mesh.aabb surface_mesh.scale_to_unit", "every set of 3 vertices that is not a single point", minmax="define", time=300)
def scale_to_unit(c):
    S = c.mod(SM)
    M, V = _mesh(c, S, 3, ((0, 1, 2),))
    keep = copy_of(c, V)
    lo, hi = S.aabb(M)
    for k in range(3):
        for i in range(3):
            c.le("lower%d%d" % (i, k), lo[k], keep[i][k])
            c.ge("upper%d%d" % (i, k), hi[k], keep[i][k])
        c.prove("tight%d" % k, c.all(c.any(*[near(c, lo[k], keep[i][k]) for i in range(3)]), c.any(*[near(c, hi[k], keep[i][k]) for i in range(3)])))
    lo, hi = copy_of(c, lo), copy_of(c, hi)
    ext = [hi[k] - lo[k] for k in range(3)]
    c.assume(c.any(*[e >= 0.01 for e in ext]))
    S.scale_to_unit(M)
    big = ext[0]
    for e in ext[1:]:
        big = c.np.maximum(big, e)
    for i in range(3):
        for k in range(3):
            mid = (lo[k] + hi[k]) / 2
            c.eq("uniform_about_centre%d%d" % (i, k), (M.V[i][k] - mid) * big, keep[i][k] - mid)


@harness("G07", "surface_mesh.axis_sort", "every set of 3..4 vertices, every axis, 1..3 triangles", time=300, no_validate=False)
def axis_sort(c):
    S = c.mod(SM)
    n = c.choose("vertices", [3, 4])
    Ts = [((0, 1, 2),), ((2, 1, 0), (0, 1, 2))] if n == 3 else [((0, 1, 2), (3, 2, 1)), ((3, 1, 0), (1, 2, 0), (3, 2, 1))]
    T = Ts[c.choose("triangles", [0, 1])]
    axis = c.unit("axis")
    # parametrise by the projections: vertex = d axis + lateral part (the projection is then a plain variable)
    d = [c.real("d%d" % i) for i in range(n)]
    lat = [cross(c, axis, c.vec("l%d" % i)) for i in range(n)]
    V = c.array([[d[i] * axis[k] + lat[i][k] for k in range(3)] for i in range(n)])
    s = c.choose("length", [1, 3])
    M = S.Mesh(V, c.iarray([list(t) for t in T]))
    S.axis_sort(M, axis * s)
    for i in range(n - 1):
        c.le("sorted%d" % i, dot(M.V[i], axis), dot(M.V[i + 1], axis))
    # vertices are a permutation: match each new vertex with the old vertex of the same identity
    new = tri_list(M.T)
    ident = lambda a, b: c.all(*[near(c, a[k], b[k], 1e-9) for k in range(3)])
    c.prove("count", len(M.V) == n and len(new) == len(T))
    for o, t in enumerate(T):
        c.prove("triangle_survives%d" % o, c.any(*[c.all(*[ident(M.V[s_[k]], V[t[k]]) for k in range(3)]) for s_ in new]))
    means = [sum(t) for t in new]
    c.prove("triangles_sorted", all(means[i] <= means[i + 1] for i in range(len(means) - 1)))


class _Hull:
    pass


@harness("G07", "surface_mesh.create_convex_hull", "every non-degenerate tetrahedron with an extra interior point; the library hull may list the hull vertices in any order and each triangle in either orientation", time=300)
def convex_hull(c):
    S = c.mod(SM)
    x, A, B, D = c.vec("x"), c.vec("a"), c.vec("b"), c.vec("d")
    v6 = det3([A, B, D])
    c.assume(v6 * v6 >= 1e-4)
    w = [c.real("w%d" % i, 0.01, 1) for i in range(4)]
    tot = w[0] + w[1] + w[2] + w[3]
    corners = [x, x + A, x + B, x + D]
    inner = c.array([(w[0] * corners[0][k] + w[1] * corners[1][k] + w[2] * corners[2][k] + w[3] * corners[3][k]) / tot for k in range(3)])
    slot = c.choose("interior_at", [0, 2, 4])
    pts = corners[:slot] + [inner] + corners[slot:]
    ids = [i for i in range(5) if i != slot]
    P = c.array([[v for v in p] for p in pts])
    order = c.choose("vertex_order", [(0, 1, 2, 3), (2, 0, 3, 1)])
    flips = [c.choose("flip%d" % i, [0, 1]) for i in range(4)]
    faces = [(0, 1, 2), (0, 1, 3), (1, 2, 3), (2, 0, 3)]

    def fake(points):
        h = _Hull()
        h.points = points
        h.vertices = c.iarray([ids[o] for o in order])
        h.simplices = c.iarray([[ids[f[0]], ids[f[2 if fl else 1]], ids[f[1 if fl else 2]]] for f, fl in zip(faces, flips)])
        return h
    c.patch_lib("scipy.spatial", "ConvexHull", fake)
    V, T = S.create_convex_hull(P)
    closed_manifold(c, "closed", len(V), T, 2)
    ctr = c.array([sum(p[k] for p in corners) / 4 for k in range(3)])
    for i, t in enumerate(tri_list(T)):
        _lt(c, "outward%d" % i, 0, face_side(c, V, t, ctr))
    for i, p in enumerate(corners):
        c.prove("corner_kept%d" % i, c.any(*[c.all(*[near(c, v[k], p[k]) for k in range(3)]) for v in V]))
    c.prove("corners_only", len(V) == 4)
