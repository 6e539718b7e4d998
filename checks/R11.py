"""Contact generation of the rigid body simulator."""
from symx.harness import harness
from common import *
TY = "rainbow.simulators.prox_rigid_bodies.types"
CD = "rainbow.simulators.prox_rigid_bodies.collision_detection"
G3 = "rainbow.geometry.grid3"
BV = "rainbow.geometry.kdop_bvh"
NOTE = """Real arithmetic.  The tandem traversal is a stand-in that delivers a chosen list of triangle pairs (its own property is G03); the signed distance fields are arbitrary fields of the form (value affine in the point, gradient affine in the point, independent of each other), which covers planar fields exactly and exercises every branch of the search; relative placements are the listed ones, absolute placements arbitrary."""
MESH = {"a": ([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 1], [0, 1, 3], [1, 2, 3]]),
        "b": ([[0.5, 0, 0.25], [0, 1, 0.5], [-0.5, 0, 0], [0.25, 0.5, -1]], [[0, 1, 2], [2, 1, 3]]),
        "c": ([[0, 0, 2], [1, 1, 1], [0, 2, 0]], [[0, 1, 2]])}
QUATS = {"none": [1, 0, 0, 0], "x90y90": [0.5, 0.5, 0.5, 0.5], "about_z": [0.6, 0, 0, 0.8], "tilted": [0.1, 0.7, -0.5, 0.5]}


class Mesh:
    def __init__(self, c, name):
        import numpy as np
        V, T = MESH[name]
        self.V, self.T = c.array([[float(x) for x in r] for r in V]), np.array(T, dtype=np.int32)


CURVED = [(0, 0), (0, 1), (1, 1), (2, 0)]       # entries of the gradient's derivative that vary in the quick tier


class Field:
    """value and gradient affine in the point, kind of field and bounds of the inside region"""

    def __init__(self, c, name, kind):
        self.c, self.kind = c, kind
        if kind == "off":                # a body whose field is never near
            self.a, self.B, self.w, self.v0, self.cut = [1, 0, 0], None, [1, 0, 0], 5, -100
            return
        self.a = [c.real("%s.g%d" % (name, i), -2, 2) for i in range(3)]
        self.B = [[c.real("%s.B%d%d" % (name, i, j), -1, 1) if (i, j) in CURVED or c.thorough else 0 for j in range(3)] for i in range(3)] if kind == "curved" else None
        self.v0 = c.real(name + ".v0", -3, 3)
        self.grow = None                 # matrix: the gradient seen through it is assumed not to vanish at the points asked for
        self.w = [c.real("%s.w%d" % (name, i), -1, 1) for i in range(3)] if kind == "curved" else self.a
        self.cut = c.real(name + ".cut", -5, 5)

    def value(self, p):
        return self.v0 + dot(self.w, p)

    def gradient(self, p):
        if self.kind == "zero":
            return self.c.array([0.0, 0.0, 0.0])
        if self.B is None:
            return self.c.array(self.a)
        g = self.c.array([self.a[i] + dot(self.B[i], p) for i in range(3)])
        if self.grow is not None:
            m = mv(self.c, self.grow, g)
            self.c.assume(dot(m, m) >= 1e-4)
        return g

    def inside(self, p):
        return p[0] - p[1] * 0.5 < self.cut


def install(c, pairs):
    """the grid functions read the fields above; refit and traversal are recorded"""
    G, B = c.mod(G3), c.mod(BV)
    seen = {"refit": []}
    c.patch(G, "get_value", lambda grid, p: grid.value(p))
    c.patch(G, "get_gradient", lambda grid, p: grid.gradient(p))
    c.patch(G, "is_inside", lambda grid, p, boundary=0.5: grid.inside(p))
    c.patch(B, "refit_bvh", lambda V, T, bvh, K, envelope: seen["refit"].append((copy_of(c, V), T, bvh, K, envelope)))

    def traversal(a, b):
        return [list(p) for p in pairs.get((a, b), [(j, i) for i, j in pairs.get((b, a), [])])]
    c.patch(B, "traversal", traversal)
    return seen


def rigid(c, T, name, idx, q, field):
    b = T.RigidBody(name)
    b.idx, b.bvh = idx, name
    b.shape = T.Shape(name)
    b.shape.mesh, b.shape.grid = Mesh(c, name), field
    b.q = c.array([float(x) for x in q])
    return b


def inside_triangle(c, p, P):
    """p is a constant point: in the triangle P (constants, as floats)"""
    import numpy as np
    P = np.array([[float(x) for x in r] for r in P])
    p = np.array([float(x) for x in p])
    A = np.vstack([P.T, np.ones(3)])
    w, *_ = np.linalg.lstsq(A, np.append(p, 1.0), rcond=None)
    return bool(np.allclose(A @ w, np.append(p, 1.0), atol=1e-6) and w.min() >= -1e-6)


def body_coords(c, body, p):
    return mv(c, tr(c, R_of(c, body.q)), p - body.r)


def two_bodies(c, kinds):
    T = c.mod(TY)
    qa, qb = c.choose("orientations", [("none", "none"), ("x90y90", "about_z"), ("about_z", "tilted")])
    fields = {"a": Field(c, "sdf_a", kinds[0]), "b": Field(c, "sdf_b", kinds[1])}
    a, b = rigid(c, T, "a", 0, QUATS[qa], fields["a"]), rigid(c, T, "b", 1, QUATS[qb], fields["b"])
    b.r = c.vec("rb")
    rel = (0, 0, 0) if qa == "x90y90" else (0.25, -0.5, 0.5)
    a.r = b.r + mv(c, R_of(c, b.q), c.array([float(x) for x in rel]))
    e = T.Engine()
    e.bodies = {"a": a, "b": b}
    e.params.envelope = c.real("envelope", 0, 0.5)
    e.params.contact_optimization_tolerance = c.real("tolerance", 0, 1)
    return T, e, a, b, fields


def placed(c, body, i):
    return mv(c, R_of(c, body.q), body.shape.mesh.V[i]) + body.r


PAIRS = [[(0, 0)], [(1, 1), (1, 0)], []]


@harness("R11", "collision_detection.run_collision_detection", "two bodies, three relative placements, every absolute position, no or one triangle pair, either field arbitrary curved (the other far away), one search iteration (two for one placement), every envelope and tolerance", t_branch=300, time=400, max_paths=4000)
def contacts(c):
    side = c.choose("field", ["a", "b"])
    T, e, a, b, fields = two_bodies(c, ["curved" if side == n else "off" for n in "ab"])
    pairs = c.choose("pairs", PAIRS[:1] + PAIRS[2:])
    e.params.contact_optimization_max_iterations = c.choose("iterations", [1, 2]) if c.thorough or (side == "a" and float(a.q[0]) == 0.5) else 1
    prof = c.choose("profiling", [False, True]) if not pairs else False
    seen = install(c, {("a", "b"): pairs})
    V0 = [copy_of(c, x.shape.mesh.V) for x in (a, b)]
    e.contact_points = ["old"]
    c.mod(CD).run_collision_detection(e, {}, prof)
    c.prove("no_pairs_no_contacts", bool(pairs) or len(e.contact_points) == 0)
    c.prove("refit_all", sorted(r[2] for r in seen["refit"]) == ["a", "b"])
    for V, Tr, bvh, K, env in seen["refit"]:
        body = e.bodies[bvh]
        c.eq("refit_with_envelope_" + bvh, env, e.params.envelope)
        c.prove("refit_mesh_" + bvh, Tr is body.shape.mesh.T and K == e.params.K)
        for i in range(len(V)):
            c.eq("world_vertex_%s%d" % (bvh, i), V[i], placed(c, body, i))
    for i, x in enumerate((a, b)):
        c.eq("mesh_kept%d" % i, x.shape.mesh.V, V0[i])
    c.prove("at_most_one_per_triangle_and_field", len(e.contact_points) <= 2 * len(pairs))
    for k, cp in enumerate(e.contact_points):
        A, B = cp.bodyA, cp.bodyB
        c.prove("two_bodies%d" % k, {A.name, B.name} == {"a", "b"})
        f = fields[A.name]
        pb = body_coords(c, A, cp.p)
        c.eq("gap%d" % k, cp.g, f.value(pb))
        c.le("within_envelope%d" % k, cp.g, e.params.envelope)
        c.prove("inside_field%d" % k, f.inside(pb))
        n = mv(c, R_of(c, A.q), f.gradient(pb))
        c.eq("unit_normal%d" % k, dot(cp.n, cp.n), 1)
        c.eq("normal_direction%d" % k, cross(c, cp.n, n), [0, 0, 0])
        c.ge("normal_outwards%d" % k, dot(cp.n, n), 0)
        tris = [B.shape.mesh.T[p["ab".index(B.name)]] for p in pairs]
        P = [[body_coords(c, A, placed(c, B, v)) for v in t] for t in tris]
        c.prove("on_the_other_body%d" % k, any(inside_triangle(c, pb, t) for t in P))


@harness("R11", "collision_detection.run_collision_detection", "the same placements with a planar field of either body, inside everywhere and 1..2 triangle pairs: which contacts must be found", t_branch=300, time=400, max_paths=4000)
def nothing_missed(c):
    side = c.choose("field", ["a", "b"])
    T, e, a, b, fields = two_bodies(c, ["planar" if side == n else "off" for n in "ab"])
    pairs = c.choose("pairs", PAIRS[:2])
    e.params.contact_optimization_max_iterations = c.choose("iterations", [1, 8])
    slack = 0 if e.params.contact_optimization_max_iterations == 1 else 1e-9      # the weights of later steps are rounded
    install(c, {("a", "b"): pairs})
    other = {"a": b, "b": a}
    want = {}
    for n in "ab":
        f = fields[n]
        if n != side:
            want[n] = []
            continue
        c.assume(f.cut >= 4.9)                    # inside everywhere
        B = other[n]
        owner = e.bodies[n]
        tris = sorted({p["ab".index(B.name)] for p in pairs})
        want[n] = [[body_coords(c, owner, placed(c, B, int(v))) for v in B.shape.mesh.T[t]] for t in tris]
        c.assume(f.a[0] >= 0.01) if n == "a" else c.assume(f.a[1] <= -0.01)
    c.mod(CD).run_collision_detection(e, {}, False)
    for n in "ab":
        f = fields[n]
        if n != side:
            c.prove("outside_no_contact", not any(cp.bodyA.name == n for cp in e.contact_points))
        mine = [cp for cp in e.contact_points if cp.bodyA.name == n]
        for t, P in enumerate(want[n]):
            vals = [f.value(p) for p in P]
            at = [body_coords(c, e.bodies[n], cp.p) for cp in mine]
            # the deepest corner is a contact as soon as it is within the envelope, and otherwise there is none on this triangle
            for v in range(3):
                deepest = c.all(*[vals[v] < vals[u] for u in range(3) if u != v])
                hit = c.any(*[c.all(*[abs(q[i] - P[v][i]) <= 1e-9 for i in range(3)]) for q in at])
                c.prove("deepest_corner_found.%s%d.%d" % (n, t, v), c.implies(c.all(deepest, vals[v] <= e.params.envelope - slack), hit))
        # nothing reported twice
        for i in range(len(mine)):
            for j in range(i):
                c.prove("distinct.%s" % n, c.any(*[mine[i].p[k] != mine[j].p[k] for k in range(3)]))


@harness("R11", "collision_detection.run_collision_detection", "the same placements, a field of vanishing gradient (and any affine value)", t_branch=300, time=400)
def no_direction_no_contact(c):
    side = c.choose("field", ["a", "b"])
    T, e, a, b, fields = two_bodies(c, ["zero" if side == n else "off" for n in "ab"])
    e.params.contact_optimization_max_iterations = 2
    install(c, {("a", "b"): PAIRS[0]})
    c.mod(CD).run_collision_detection(e, {}, False)
    c.prove("no_contact", len(e.contact_points) == 0)


@harness("R11", "collision_detection._contact_reduction", "1..4 contacts among three bodies in every listed pairing, arbitrary positions (equal or not in every combination), normals and gaps", t_branch=300, time=400, max_paths=4000)
def reduction(c):
    T = c.mod(TY)
    bodies = [T.RigidBody(n) for n in "abc"]
    e = T.Engine()
    combos = c.choose("pairs", [[(0, 1)], [(0, 1), (0, 1)], [(0, 1), (1, 0)], [(0, 1), (0, 2)], [(0, 1), (1, 2), (0, 1)], [(0, 1), (0, 1), (0, 1)]] + ([[(0, 1), (0, 2), (1, 0), (0, 1)]] if c.thorough else []))
    cps = []
    for k, (i, j) in enumerate(combos):
        p = c.vec("p%d" % k, 2) if k == 0 else c.array([c.real("p%d.0" % k, -2, 2), c.real("p%d.1" % k, -2, 2), 0.5])
        if k == 0:
            p = c.array([p[0], p[1], 0.5])
        cps.append(T.ContactPoint(bodies[i], bodies[j], p, c.array([0.0, 1.0, 0.0]), c.real("g%d" % k, -1, 1)))
    e.contact_points = list(cps)
    c.mod(CD)._contact_reduction(e, {}, False)
    out = e.contact_points

    def same(x, y):
        return c.all({x.bodyA.name, x.bodyB.name} == {y.bodyA.name, y.bodyB.name}, *[x.p[i] == y.p[i] for i in range(3)])
    c.prove("only_given_ones", all(any(o is x for x in cps) for o in out))
    for k, x in enumerate(cps):
        c.prove("represented%d" % k, c.any(*[same(x, o) for o in out]))
    for i in range(len(out)):
        for j in range(i):
            c.prove("no_duplicates", c.no(same(out[i], out[j])))
