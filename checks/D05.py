"""Contact generation and self-collision tests of the deformable body simulator."""
import itertools

from symx.harness import harness
from common import *
from R11 import Field, install
ST = "rainbow.simulators.prox_soft_bodies.types"
CD = "rainbow.simulators.prox_soft_bodies.collision_detection"
BC = "rainbow.geometry.barycentric"
NOTE = """Real arithmetic.  Contact generation: two bodies of one or two tetrahedra in the listed material shapes and deformations (identity, rotations, shear with stretch), the fields of R11 over material space (their gradient does not vanish at the points of the search, except in no_direction_no_contact), the tandem traversal is a stand-in (property G03; the hash grid broad phase is G04).  Triangle pairs: the listed pairs of shapes, every translation against each other."""
TETS = {"a": ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], [[0, 1, 2, 3], [1, 2, 3, 4]]),
        "b": ([[0, 0, 0], [1, 0, 0.5], [0, 2, 0], [-0.5, 0, 1]], [[0, 1, 2, 3]])}
FACES = {"a": ([[0, 2, 1], [0, 1, 3], [1, 4, 2]], [(0, 3), (0, 2), (1, 3)]), "b": ([[0, 1, 3], [1, 2, 3]], [(0, 2), (0, 0)])}
DEFORM = {"none": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "turned": [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
          "tilted": [[0.6, 0, 0.8], [0, 1, 0], [-0.8, 0, 0.6]], "sheared": [[2, 1, 0], [0, 0.5, 0], [0.25, 0, 1]]}


def consts(c, rows):
    return c.array([[float(x) for x in r] for r in rows])


def soft(c, T, name, idx, F, t, field):
    import numpy as np
    V, tets = TETS[name]
    b = T.SoftBody(name)
    b.idx, b.bvh, b.grid = idx, name, field
    b.T = np.array(tets, dtype=np.int32)
    S, owners = FACES[name]
    b.surface, b.owners = np.array(S, dtype=np.int32), np.array(owners, dtype=np.int32)
    b.x0 = consts(c, V)
    M = consts(c, F)
    b.x = c.array([[v for v in mv(c, M, p) + c.array([float(x) for x in t])] for p in b.x0])
    return b


def det4(c, X):
    e = [X[i] - X[3] for i in range(3)]
    return dot(e[0], cross(c, e[1], e[2]))


def weights_of(c, X, p):
    """barycentric coordinates by Cramer's rule (independent of the code)"""
    d = det4(c, X)
    out = []
    for i in range(4):
        Y = [X[j] if j != i else p for j in range(4)]
        out.append(det4(c, Y) / d)
    return out


def make_world(c, side, kind):
    T = c.mod(ST)
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    fa, fb = c.choose("deformations", [("none", "none"), ("turned", "tilted"), ("sheared", "turned"), ("tilted", "sheared")])
    e = T.Engine()
    e.params.use_spatial_hashing = False
    fields = {n: Field(c, "sdf_" + n, kind if n == side else "off") for n in "ab"}
    e.bodies = {"a": soft(c, T, "a", 0, DEFORM[fa], (0.25, -0.5, 0.5), fields["a"]), "b": soft(c, T, "b", 1, DEFORM[fb], (0, 0.25, 0), fields["b"])}
    F = {"a": DEFORM[fa], "b": DEFORM[fb]}
    e.params.envelope = c.real("envelope", 0, 0.5)
    e.params.contact_optimization_tolerance = c.real("tolerance", 0, 1)
    return e, fields, F


PAIRS = [[(0, 0)], [(2, 1)], []]


@harness("D05", "collision_detection.run_collision_detection barycentric.compute_barycentric_tetrahedron", "two bodies, four pairs of deformations, no or one triangle pair, either field arbitrary curved, 1 search iteration (2 for one placement), every envelope and tolerance", t_branch=300, time=400, max_paths=4000)
def contacts(c):
    side = c.choose("field", ["a", "b"])
    e, fields, F = make_world(c, side, "curved")
    which = [F["a"] is DEFORM[k] for k in ("turned", "sheared", "none", "tilted")].index(True)
    pairs = c.choose("pairs", PAIRS if c.thorough else [PAIRS[(which + (side == "a")) % 2]] + PAIRS[2:][:which == 0])
    two = c.thorough
    e.params.contact_optimization_max_iterations = c.choose("iterations", [1, 2]) if two else 1
    prof = c.choose("profiling", [False, True]) if not pairs else False
    seen = install(c, {("a", "b"): pairs})
    M = consts(c, F[side])               # rows of F^{-T} up to the determinant: cross products of columns of F
    col = [[M[i][j] for i in range(3)] for j in range(3)]
    cof = [cross(c, col[1], col[2]), cross(c, col[2], col[0]), cross(c, col[0], col[1])]
    d = det3(M)
    fields[side].grow = tr(c, [[cof[i][j] / d for j in range(3)] for i in range(3)])
    e.contact_points = ["old"]
    X = {n: [copy_of(c, e.bodies[n].x), copy_of(c, e.bodies[n].x0)] for n in "ab"}
    c.mod(CD).run_collision_detection(e, {}, prof)
    for n in "ab":
        c.eq("positions_kept_" + n, e.bodies[n].x, X[n][0])
        c.eq("material_positions_kept_" + n, e.bodies[n].x0, X[n][1])
    c.prove("refit_all", sorted(r[2] for r in seen["refit"]) == ["a", "b"])
    for V, Tr, bvh, K, env in seen["refit"]:
        c.eq("refit_positions_" + bvh, V, e.bodies[bvh].x)
        c.eq("refit_envelope_" + bvh, env, e.params.envelope)
        c.prove("refit_mesh_" + bvh, Tr is e.bodies[bvh].surface and K == e.params.K)
    c.prove("at_most_one_per_triangle_pair_and_field", len(e.contact_points) <= 2 * len(pairs))
    for k, cp in enumerate(e.contact_points):
        A, B = cp.bodyA, cp.bodyB
        c.prove("two_bodies%d" % k, {A.name, B.name} == {"a", "b"})
        f = fields[A.name]
        on_A = {FACES[A.name][1][p["ab".index(A.name)]][0] for p in pairs}
        on_B = {FACES[B.name][1][p["ab".index(B.name)]][0] for p in pairs}
        c.prove("owning_elements%d" % k, int(cp.idx_tetA) in on_A and int(cp.idx_tetB) in on_B)
        XA, X0A = [A.x[i] for i in A.T[int(cp.idx_tetA)]], [A.x0[i] for i in A.T[int(cp.idx_tetA)]]
        XB = [B.x[i] for i in B.T[int(cp.idx_tetB)]]
        for what, body_x, om in (("A", XA, cp.omegaA), ("B", XB, cp.omegaB)):
            c.eq("weights%s_add_up%d" % (what, k), sum(om[i] for i in range(4)), 1)
            c.eq("weights%s_reproduce_point%d" % (what, k), [sum(om[i] * body_x[i][j] for i in range(4)) for j in range(3)], cp.p)
        p0 = c.array([sum(cp.omegaA[i] * X0A[i][j] for i in range(4)) for j in range(3)])
        c.eq("gap%d" % k, cp.g, f.value(p0))
        c.le("within_envelope%d" % k, cp.g, e.params.envelope)
        c.prove("inside_field%d" % k, f.inside(p0))
        g = f.gradient(p0)
        # the world normal is perpendicular to everything the field's tangent plane is mapped to: F^T n is along the gradient
        M = consts(c, F[A.name])
        back = mv(c, tr(c, M), cp.n)
        c.eq("unit_normal%d" % k, dot(cp.n, cp.n), 1)
        c.eq("normal_direction%d" % k, cross(c, back, g), [0, 0, 0])
        c.ge("normal_outwards%d" % k, dot(back, g), 0)
        tris = [B.surface[p["ab".index(B.name)]] for p in pairs]
        c.prove("on_the_other_body%d" % k, c.any(*[on_triangle(c, cp.p, [B.x[v] for v in t]) for t in tris]))


def on_triangle(c, p, P):
    n = cross(c, P[1] - P[0], P[2] - P[0])
    slack = 0 if c.sym else 1e-7
    out = [abs(dot(n, p - P[0])) <= slack]
    for i in range(3):
        out.append(dot(cross(c, P[(i + 1) % 3] - P[i], p - P[i]), n) >= -slack)
    return c.all(*out)


@harness("D05", "collision_detection.run_collision_detection", "the same bodies with a planar field of either body, inside everywhere, 1 or 8 iterations: the deepest corner of every listed triangle is a contact when within the envelope", t_branch=300, time=400, max_paths=4000)
def nothing_missed(c):
    side = c.choose("field", ["a", "b"])
    e, fields, F = make_world(c, side, "planar")
    pairs = c.choose("pairs", [[(0, 0)], [(2, 1), (1, 0)]])
    e.params.contact_optimization_max_iterations = c.choose("iterations", [1, 8])
    install(c, {("a", "b"): pairs})
    f = fields[side]
    f.cut = 1000
    c.assume(f.a[0] >= 0.01)
    c.mod(CD).run_collision_detection(e, {}, False)
    A, B = e.bodies[side], e.bodies["b" if side == "a" else "a"]
    c.prove("only_this_field", all(cp.bodyA is A and cp.bodyB is B for cp in e.contact_points))
    at = [cp.p for cp in e.contact_points]
    for t, pr in enumerate(pairs):
        tri = [B.x[v] for v in B.surface[pr["ab".index(B.name)]]]
        tet = FACES[A.name][1][pr["ab".index(A.name)]][0]
        XA, X0A = [A.x[i] for i in A.T[tet]], [A.x0[i] for i in A.T[tet]]
        vals = []
        for p in tri:
            w = weights_of(c, XA, p)
            vals.append(f.value([sum(w[i] * X0A[i][j] for i in range(4)) for j in range(3)]))
        for v in range(3):
            deepest = c.all(*[vals[v] < vals[u] for u in range(3) if u != v])
            hit = c.any(*[c.all(*[abs(q[i] - tri[v][i]) <= (0 if c.sym else 1e-9) for i in range(3)]) for q in at])
            c.prove("deepest_corner_found.%d.%d" % (t, v), c.implies(c.all(deepest, vals[v] <= e.params.envelope), hit))
    for i in range(len(at)):
        for j in range(i):
            c.prove("distinct", c.any(*[at[i][k] != at[j][k] for k in range(3)]))


@harness("D05", "collision_detection.run_collision_detection", "the same bodies, a field of vanishing gradient (and any affine value)", t_branch=300, time=400)
def no_direction_no_contact(c):
    side = c.choose("field", ["a", "b"])
    e, fields, F = make_world(c, side, "zero")
    e.params.contact_optimization_max_iterations = 2
    install(c, {("a", "b"): PAIRS[0]})
    c.mod(CD).run_collision_detection(e, {}, False)
    c.prove("no_contact", len(e.contact_points) == 0)


@harness("D05", "collision_detection._contact_reduction", "1..3 contacts among three bodies in every listed pairing, arbitrary positions (equal or not in every combination) and gaps", t_branch=300, time=400, max_paths=4000, symhash=True)
def reduction(c):
    T = c.mod(ST)
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    bodies = [T.SoftBody(n) for n in "abc"]
    e = T.Engine()
    combos = c.choose("pairs", [[(0, 1)], [(0, 1), (0, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 2)], [(0, 1), (1, 2), (0, 1)], [(0, 1), (0, 1), (0, 1)]] + ([[(0, 1), (0, 2), (1, 0), (0, 1)]] if c.thorough else []))
    cps = []
    w = [0.25] * 4
    still = c.choose("same_coordinate", [2, 0, 1] if len(combos) < 3 else [2])
    for k, (i, j) in enumerate(combos):
        p = [c.real("p%d.0" % k, -2, 2), c.real("p%d.1" % k, -2, 2)]
        p = c.array(p[:still] + [0.5] + p[still:])
        cps.append(T.ContactPoint(bodies[i], bodies[j], k, k, c.array(w), c.array(w), p, c.array([0.0, 1.0, 0.0]), c.real("g%d" % k, -1, 1)))
    e.contact_points = list(cps)
    c.mod(CD)._contact_reduction(e, {}, False)
    out = e.contact_points

    def same(x, y, ordered):
        pair = x.bodyA is y.bodyA and x.bodyB is y.bodyB
        if not ordered:
            pair = pair or (x.bodyA is y.bodyB and x.bodyB is y.bodyA)
        return c.all(pair, *[x.p[i] == y.p[i] for i in range(3)])
    c.prove("only_given_ones", all(any(o is x for x in cps) for o in out))
    for k, x in enumerate(cps):
        c.prove("represented%d" % k, c.any(*[same(x, o, False) for o in out]))
    for i in range(len(out)):
        for j in range(i):
            c.prove("no_duplicates", c.no(same(out[i], out[j], True)))


# ---------------------------------------------------------------------------------------- pairs of triangles
SHAPES = {"crossing": ([[0, 0, 0], [2, 0, 0], [0, 2, 0]], [[0, 0, -1], [1, 0.5, 1], [-0.5, 1, 1]]),
          "upright": ([[0, 0, 0], [1, 0, 1], [0, 1, 0]], [[0, 0, 0], [0, 1, 1], [0.5, 0, 2]]),
          "small_in_large": ([[-3, -3, 0], [3, -2, 0], [0, 4, 1]], [[0, 0, 0], [0.25, 0, 0.5], [0, 0.25, -0.25]])}


def axes_of(P, Q):
    import numpy as np
    P, Q = np.array(P, float), np.array(Q, float)
    e, f = [P[(i + 1) % 3] - P[i] for i in range(3)], [Q[(i + 1) % 3] - Q[i] for i in range(3)]
    out = [np.cross(e[0], e[1]), np.cross(f[0], f[1])] + [np.cross(a, b) for a in e for b in f]
    return [a for a in out if abs(a).max() > 1e-9]


def pair(c, shapes=tuple(sorted(SHAPES)), orders=(False, True)):
    name = c.choose("shapes", shapes)
    swap = c.choose("swap", orders)
    P, Q = SHAPES[name]
    t = c.vec("t")
    M = c.mod(CD)
    A = consts(c, P)
    B = c.array([[v for v in p + t] for p in consts(c, Q)])
    return name, M, (B, A) if swap else (A, B), A, B, t


@harness("D05", "collision_detection._triangle_intersection", "three pairs of triangle shapes, every relative translation, both argument orders", t_branch=300, time=400, max_paths=4000, may_be_empty=True)
def intersection_is_exact(c):
    name, M, args, A, B, t = pair(c)
    res = M._triangle_intersection(*args)
    sep = []
    touch = []
    for a in axes_of(*SHAPES[name]):
        a = [float(x) for x in a]
        pa, pb = [dot(a, p) for p in A], [dot(a, p) for p in B]
        sep.append(c.any(c.all(*[x < y for x in pa for y in pb]), c.all(*[x > y for x in pa for y in pb])))
        touch += [c.no(abs(x - y) <= 1e-6) if not c.sym else (x != y) for x in pa for y in pb]
    c.prove("true_iff_no_plane_separates", c.no(c.any(*sep)) if bool(res) else c.any(*sep), margin=c.all(*touch))


@harness("D05", "collision_detection._is_self_collision collision_detection._is_share_vertex", "the same triangles plus pairs that share exactly one vertex", t_branch=300, time=400, max_paths=4000)
def self_collision(c):
    share = c.choose("share", [True, False])
    name, M, args, A, B, t = pair(c, sorted(SHAPES) if share or c.thorough else ["upright"], [False, True] if share or c.thorough else [False])
    if share:
        i, j = c.choose("which", [(0, 0), (2, 1)])
        for k in range(3):
            args[1][j][k] = args[0][i][k]
    AA = c.mod("rainbow.geometry.aabb").AABB
    boxes = [AA.create_from_vertices(x) for x in args]
    res = bool(M._is_self_collision(args[0], args[1], boxes[0], boxes[1]))
    if share:
        c.prove("neighbours_do_not_collide", not res)
    else:
        eq = c.any(*[c.all(*[p[k] == q[k] for k in range(3)]) for p in A for q in B])
        c.prove("as_intersection", c.any(eq, res == bool(M._triangle_intersection(*args))))


@harness("D05", "collision_detection._spatial_hashing_narrow_phase collision_detection._is_self_collision", "a body of two triangles (one pair of shapes; thorough: three) in every relative translation, beside a body of one far triangle (thorough: both triangle orders); everything in one cell of the hash grid", t_branch=300, time=500, max_paths=6000)
def self_collisions_reported(c):
    from G04 import grid_of, Body
    import types
    name, M, args, A, B, t = pair(c, sorted(SHAPES) if c.thorough else ["upright"], [False, True] if c.thorough else [False])
    shift = c.array([8.0, 8.0, 8.0])
    far = [[12.0, 12.0, 12.0], [13.0, 12.0, 12.0], [12.0, 13.0, 12.5]]
    g = grid_of(c, 100)
    g.cell_size = 16.0
    for x in t:
        c.assume(c.all(x >= -3, x <= 3))
    e = types.SimpleNamespace(hash_grid=g, params=types.SimpleNamespace(time_stamp=1), bodies={})
    for n in range(2):
        e.bodies["b%d" % n] = Body(n)
    me, other = e.bodies["b0"], e.bodies["b1"]
    rows = [[v for v in p + shift] for tri in args for p in tri]
    me.x, me.surface = c.array(rows), c.iarray([[0, 1, 2], [3, 4, 5]])
    other.x, other.surface = c.array(far), c.iarray([[0, 1, 2]])
    res, _ = M._spatial_hashing_narrow_phase(e, {}, False)
    mine = [tuple(sorted(int(v) for v in r)) for (p, q), rs in res.items() if p is me and q is me for r in rs]
    c.prove("no_other_pair", all(p is me and q is me for (p, q), rs in res.items() if len(rs)) and set(mine) <= {(0, 1)} and len(mine) <= 1)
    eq = c.any(*[c.all(*[p[k] == q[k] for k in range(3)]) for p in A for q in B])
    hit = bool(M._triangle_intersection(*args))
    c.prove("reported_iff_they_meet", c.any(eq, bool(mine) == hit), margin=c.no(c.any(*[c.all(*[abs(p[k] - q[k]) <= 1e-6 for k in range(3)]) for p in A for q in B])) if not c.sym else None)
