"""Tetrahedra: signed volume, spheres and sample points."""
from symx.harness import harness
from common import *
TM = "rainbow.geometry.tetrahedron"


@harness("G06", "tetrahedron.compute_signed_volume tetrahedron.is_left_orientation", "every four points, every rigid motion, every scaling")
def signed_volume(c):
    T = c.mod(TM)
    P = [c.vec("p%d" % i) for i in range(4)]
    v = T.compute_signed_volume(*P)
    e = [P[i] - P[0] for i in (1, 2, 3)]
    c.eq("sixth_of_determinant", 6 * v, det3(e))
    c.eq("even_permutation", T.compute_signed_volume(P[1], P[2], P[0], P[3]), v)
    c.eq("even_permutation2", T.compute_signed_volume(P[1], P[0], P[3], P[2]), v)
    c.eq("swap_changes_sign", T.compute_signed_volume(P[1], P[0], P[2], P[3]), -v)
    s = c.real("s")
    t = c.vec("t")
    c.eq("scales_cubically", T.compute_signed_volume(*[s * x + t for x in P]), s * s * s * v)
    c.prove("left_iff_negative", c.iff(v < 0, bool(T.is_left_orientation(*P))))


@harness("G06", "tetrahedron.compute_signed_volume", "every four points and every rotation")
def rotation_invariance(c):
    T = c.mod(TM)
    P = [c.vec("p%d" % i) for i in range(4)]
    R = R_of(c, c.quat("q"))
    D = [mv(c, R, P[i] - P[0]) for i in (1, 2, 3)]
    z = c.array([0, 0, 0])
    c.eq("rotated", T.compute_signed_volume(z, D[0], D[1], D[2]), T.compute_signed_volume(*P))


@harness("G06", "tetrahedron.compute_circumscribed_sphere", "every tetrahedron with volume not zero")
def circumscribed_sphere(c):
    T = c.mod(TM)
    x, A, B, D = c.vec("x"), c.vec("a"), c.vec("b"), c.vec("d")
    v6 = det3([A, B, D])
    c.assume(v6 * v6 >= 1e-4)
    lstsq_contract(c)
    P = [x + A, x + B, x + D, x]
    center, r = T.compute_circumscribed_sphere(*P)
    c.ge("radius_not_negative", r, 0)
    for i in range(4):
        e = P[i] - center
        c.eq("distance%d" % i, dot(e, e), r * r)


@harness("G06", "tetrahedron.compute_inscribed_sphere", "every tetrahedron of positive orientation with volume and face areas bounded away from zero (6 V >= 0.01, twice the area >= 0.01)", time=300)
def inscribed_sphere(c):
    T = c.mod(TM)
    x, A, B, D = c.vec("x"), c.vec("a"), c.vec("b"), c.vec("d")
    v6 = det3([A, B, D])
    c.assume(v6 >= 0.01)
    N = [cross(c, A, B), cross(c, D - A, B - A), cross(c, D - B, -B), cross(c, D, A)]
    lstsq_contract(c)
    P = [x, x + A, x + B, x + D]
    for n in N:
        c.assume(dot(n, n) >= 1e-4)
    center, r = T.compute_inscribed_sphere(*P)
    faces = [(0, 1, 2, 3), (1, 3, 2, 0), (3, 0, 2, 1), (0, 3, 1, 2)]
    total = 0
    for i, j, k, m in faces:
        n = cross(c, P[j] - P[i], P[k] - P[i])
        ln = c.np.sqrt(dot(n, n))
        c.eq("inner_normal%d" % m, dot(n, P[m] - P[i]), v6)
        c.eq("distance_to_face%d" % m, dot(n, center - P[i]), r * ln)
        total = total + ln
    c.eq("radius_times_area", r * total, v6)


@harness("G06", "tetrahedron.generate_sample_points tetrahedron.generate_interior_sample_points", "2..9 layers (every one of them)", no_validate=True)
def sample_points(c):
    T = c.mod(TM)
    N = c.choose("layers", list(range(2, 10)))
    S = T.generate_sample_points(N)
    c.prove("count", len(S) == N * (N + 1) * (N + 2) // 6)
    seen = set()
    for i, s in enumerate(S):
        c.eq("sum%d" % i, sum(s), 1)
        for a in range(4):
            k = s[a] * (N - 1)
            c.ge("not_negative%d" % i, s[a], 0)
        seen.add(tuple(int(round(float(x) * (N - 1))) for x in s))
        c.prove("on_the_lattice%d" % i, all(abs(float(x) * (N - 1) - round(float(x) * (N - 1))) < 1e-9 for x in s))
    c.prove("distinct", len(seen) == len(S))
    I = T.generate_interior_sample_points(N)
    inner = set(tuple(int(round(float(x) * (N - 1))) for x in s) for s in I)
    c.prove("interior_exactly", inner == set(t for t in seen if min(t) > 0) and len(I) == len(inner))


@harness("G06", "tetrahedron.generate_sample_points", "every layer count below 2", no_validate=True)
def too_few_layers(c):
    T = c.mod(TM)
    N = c.integer("N", -1000, 1)
    try:
        T.generate_sample_points(N)
        c.fail("accepted")
    except ValueError:
        c.prove("rejected", True)
