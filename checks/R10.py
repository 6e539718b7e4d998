"""Scene set-up of the rigid body simulator."""
from symx.harness import harness
from common import *
RA = "rainbow.simulators.prox_rigid_bodies.api"
RT = "rainbow.simulators.prox_rigid_bodies.types"
NOTE = """Real arithmetic.  In the hinge harness the two helpers that build a frame from an axis (vector3.make_orthonormal_vectors, decided by Q05) and a quaternion from a matrix (quaternion.from_matrix, decided by Q01) are replaced by what they promise; in the shape harness the mass computation (decided by R01), the signed distance sampling (libigl) and the bounding volume tree (G03) are stand-ins.  Names are taken from a fixed small set."""


def scene(c, shape=True):
    A, T = c.mod(RA), c.mod(RT)
    e = A.create_engine()
    for n in ("a", "b"):
        A.create_rigid_body(e, n)
    if shape:
        s = T.Shape("s")
        s.r, s.q = c.vec("sr"), c.quat("sq")
        e.shapes["s"] = s
        e.bodies["a"].shape = s
    return A, e


def world_of_model(c, body, pm):
    """where the body shows the point with model coordinates pm"""
    pb = mv(c, tr(c, R_of(c, body.shape.q)), pm - body.shape.r)
    return mv(c, R_of(c, body.q), pb) + body.r


@harness("R10", "api.set_position api.set_orientation api.get_position api.get_orientation api.create_engine api.create_rigid_body", "every earlier placement, every model frame, every new placement, both orders")
def model_frame_placement(c):
    A, e = scene(c)
    b, other = e.bodies["a"], e.bodies["b"]
    b.r, b.q = c.vec("r0"), c.quat("q0")
    r, q = c.vec("r"), c.quat("q")
    pm = c.vec("pm")
    order = c.choose("order", ["position", "orientation", "position then orientation", "orientation then position"])
    o0 = world_of_model(c, b, c.array([0, 0, 0]))
    R0 = mm(c, R_of(c, b.q), tr(c, R_of(c, b.shape.q)))
    keep = copy_of(c, r), copy_of(c, q), copy_of(c, b.shape.r), copy_of(c, b.shape.q)
    for what in order.split(" then "):
        if what == "position":
            A.set_position(e, "a", r, use_model_frame=True)
        else:
            A.set_orientation(e, "a", q, use_model_frame=True)
    want_R = R_of(c, q) if "orientation" in order else R0
    want_o = r if "position" in order else o0
    c.eq("appears_there", world_of_model(c, b, pm), mv(c, want_R, pm) + want_o)
    c.eq("unit", dot(b.q, b.q), 1)
    c.eq("other_position", other.r, [0, 0, 0])
    c.eq("other_orientation", other.q, [1, 0, 0, 0])
    for n, x, k in (("r", r, keep[0]), ("q", q, keep[1]), ("shape_r", b.shape.r, keep[2]), ("shape_q", b.shape.q, keep[3])):
        c.eq("kept_" + n, x, k)


SETGET = {"position": 3, "orientation": 4, "velocity": 3, "spin": 3}


@harness("R10", "api.set_position api.set_orientation api.set_velocity api.set_spin api.get_position api.get_orientation api.get_velocity api.get_spin", "every value")
def reads_back(c):
    A, e = scene(c, False)
    vals = {"position": c.vec("r"), "orientation": c.quat("q"), "velocity": c.vec("v"), "spin": c.vec("w")}
    for n, x in vals.items():
        mine = copy_of(c, x)
        getattr(A, "set_" + n)(e, "a", mine)
        for i in range(len(mine)):          # the caller goes on using its own array
            mine[i] = 77
    for n, x in vals.items():
        got = getattr(A, "get_" + n)(e, "a")
        c.eq("reads_back_" + n, got, x)
        for i in range(len(got)):           # scribbling on the answer must not move the body
            got[i] = 55
        c.eq("not_shared_" + n, getattr(A, "get_" + n)(e, "a"), x)
        c.eq("other_untouched_" + n, getattr(A, "get_" + n)(e, "b"), [1, 0, 0, 0] if n == "orientation" else [0, 0, 0])


@harness("R10", "api.set_orientation", "every non-zero quaternion, body and model frame", t_branch=300)
def orientation_is_normalised(c):
    A, e = scene(c)
    q = c.quat("q")
    s = c.pos("s")
    model = c.choose("model", [False, True])
    b = e.bodies["a"]
    if model:
        b.shape.q = c.array([1, 0, 0, 0])
    A.set_orientation(e, "a", s * q, use_model_frame=model)
    c.eq("same", A.get_orientation(e, "a"), q)


# ---- hinges ------------------------------------------------------------------------------------
@harness("R10", "api.set_hinge api.create_hinge types.Hinge.set_parent_socket types.Hinge.set_child_socket", "every placement of both bodies, every anchor and axis, the three ways of giving them")
def hinge_frames_coincide(c):
    A, e = scene(c)
    T = c.mod(RT)
    P, C = e.bodies["a"], e.bodies["b"]
    P.r, P.q, C.r, C.q = c.vec("pr"), c.quat("pq"), c.vec("cr"), c.quat("cq")
    qf, lam, o = c.quat("f"), c.pos("len"), c.vec("o")
    F = R_of(c, qf)
    z = c.array([F[i][2] for i in range(3)])
    ax = c.array([lam * x for x in z])
    mode = c.choose("mode", ["world", "body", "model"])
    if c.sym:
        def frame(n):
            n = list(n)
            c.eq("axis_kept", cross(c, n, z), [0, 0, 0])
            c.prove("axis_side", dot(n, z) > 0)
            return tuple(c.array([F[i][k] for i in range(3)]) for k in range(3))

        def quaternion(M):
            c.eq("frame_kept", M, F)
            return c.array(list(qf))
        c.mod(V3M).make_orthonormal_vectors = frame
        c.mod(QM).from_matrix = quaternion
    go, ga = o, ax
    if mode != "world":
        RT_ = tr(c, R_of(c, P.q))
        go, ga = mv(c, RT_, o - P.r), mv(c, RT_, ax)
    if mode == "model":
        S = R_of(c, P.shape.q)
        go, ga = mv(c, S, go) + P.shape.r, mv(c, S, ga)
    keep = copy_of(c, go), copy_of(c, ga)
    A.create_hinge(e, "h0")
    A.create_hinge(e, "h")
    A.set_hinge(e, "h", "a", "b", go, ga, mode)
    h = e.hinges["h"]
    c.prove("bodies", h.parent is P and h.child is C)
    c.prove("index", h.idx == 1 and e.hinges["h0"].idx == 0)
    for n, b, s, arm, axis in (("parent", P, h.socket_p, h.arm_p, h.axis_p), ("child", C, h.socket_c, h.arm_c, h.axis_c)):
        Rb = R_of(c, b.q)
        c.eq("anchor_" + n, mv(c, Rb, arm) + b.r, o)
        c.eq("axis_" + n, mv(c, Rb, axis), z)
        c.eq("socket_" + n, mv(c, Rb, s.r) + b.r, o)
        c.eq("socket_axis_" + n, [x[2] for x in mm(c, Rb, R_of(c, s.q))], z)
    Wp, Wc = mm(c, R_of(c, P.q), R_of(c, h.socket_p.q)), mm(c, R_of(c, C.q), R_of(c, h.socket_c.q))
    c.eq("same_frame", [Wp[i][j] - Wc[i][j] for i in range(3) for j in range(3)], [0] * 9)
    c.eq("origin_kept", go, keep[0])
    c.eq("axis_argument_kept", ga, keep[1])


# ---- shapes and mass ---------------------------------------------------------------------------
@harness("R10", "api.create_shape api.connect_shape api.set_mass_properties api.set_position api.set_orientation", "a tetrahedron with arbitrary corners, arbitrary body frame, mass and inertia, every density and placement", minmax="define")
def user_geometry_appears_where_asked(c):
    A, e = scene(c, False)
    ME = c.mod("rainbow.geometry.surface_mesh")
    MASS, GRID, BVH = (c.mod(m) for m in ("rainbow.simulators.prox_rigid_bodies.mass", "rainbow.geometry.grid3", "rainbow.geometry.kdop_bvh"))
    V0 = c.mat("V", 4, 3)
    fr, fq, m, I = c.vec("fr"), c.quat("fq"), c.pos("m"), c.vec("I")
    seen = {}

    def mass(V, Tt, rho):
        seen["V"], seen["rho"] = copy_of(c, V), rho
        return "properties"
    c.patch(MASS, "compute_mass_properties", mass)
    c.patch(MASS, "xform_model_2_body_space", lambda p: (copy_of(c, fr), copy_of(c, fq), m, copy_of(c, I)))
    c.patch(GRID, "create_signed_distance", lambda V, Tt, i, j, k, b: seen.__setitem__("grid", (copy_of(c, V), Tt, i, j, k, b)) or "grid")
    c.patch(BVH, "make_bvh", lambda V, Tt, K, N, env: seen.__setitem__("bvh", copy_of(c, V)) or seen.__setitem__("over", (Tt, K, N, env)) or "tree")
    Tt = c.iarray([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    mesh = ME.Mesh(copy_of(c, V0), Tt)
    A.create_shape(e, "s", mesh)
    A.connect_shape(e, "a", "s")
    rho = c.real("rho", 0.1, 1000)
    A.set_mass_properties(e, "a", rho)
    b = e.bodies["a"]
    c.eq("model_frame_measured", seen["V"], V0)
    c.eq("unit_density", seen["rho"], 1)
    c.eq("mass", b.mass, rho * m)
    c.eq("inertia", b.inertia, [rho * x for x in I])
    r, q = c.vec("r"), c.quat("q")
    A.set_orientation(e, "a", q, True)
    A.set_position(e, "a", r, True)
    Rb, Rq = R_of(c, b.q), R_of(c, q)
    for i in range(4):
        c.eq("vertex%d" % i, mv(c, Rb, b.shape.mesh.V[i]) + b.r, mv(c, Rq, V0[i]) + r)
    c.eq("centre_of_mass", A.get_position(e, "a"), mv(c, Rq, fr) + r)
    c.eq("distance_field_in_body_frame", seen["grid"][0], b.shape.mesh.V)
    c.eq("tree_over_the_shape", seen["bvh"], b.shape.mesh.V)
    c.prove("every_triangle", seen["grid"][1] is mesh.T and seen["over"][0] is mesh.T and seen["over"][1:] == (e.params.K, e.params.bvh_chunk_size, e.params.envelope))
    c.prove("margin", seen["grid"][5] >= 2 * e.params.envelope)
    c.prove("connected", b.shape is e.shapes["s"] and e.shapes["s"].mesh is mesh and b.bvh is not None)


# ---- materials -------------------------------------------------------------------------------
PAIRS = [("x", "y"), ("y", "x"), ("x", "x"), ("default", "x"), ("z", "default")]


@harness("R10", "api.create_surfaces_interaction types.SurfacesInteractionLibrary.get_interaction types.SurfacesInteractionLibrary.exist_interaction api.set_body_material", "two interactions between materials out of four names, all coefficients")
def materials(c):
    A, e = scene(c, False)
    L = e.surfaces_interactions
    first, second = c.choose("first", PAIRS), c.choose("second", PAIRS)
    if set(first) == set(second):
        return
    d = L.get_interaction("default", "default")
    vals = {}
    for k, p in (("1", first), ("2", second)):
        eps, mu = c.real("e" + k, 0, 1), c.array([c.real("m%s%d" % (k, i), 0, 2) for i in range(3)])
        vals[frozenset(p)] = (eps, copy_of(c, mu))
        A.create_surfaces_interaction(e, p[0], p[1], eps, mu)
        for i in range(3):
            mu[i] = 99                      # the caller goes on using its own array
    names = ["default", "x", "y", "z"]
    for a in names:
        for b in names:
            i1, i2 = L.get_interaction(a, b), L.get_interaction(b, a)
            c.prove("symmetric_%s_%s" % (a, b), i1 is i2)
            key = frozenset((a, b))
            c.prove("exists_%s_%s" % (a, b), L.exist_interaction(a, b) == (key in vals or key == frozenset(["default"])))
            if key in vals:
                c.eq("epsilon_%s_%s" % (a, b), i1.epsilon, vals[key][0])
                c.eq("mu_%s_%s" % (a, b), i1.mu, vals[key][1])
            else:
                c.prove("falls_back_%s_%s" % (a, b), i1 is d)
    c.eq("default_mu", d.mu, [1, 1, 1])
    c.eq("default_epsilon", d.epsilon, 0)
    used = set(first) | set(second) | {"default"}
    for n in names:
        try:
            A.set_body_material(e, "a", n)
            ok = True
        except RuntimeError:
            ok = False
        c.prove("known_" + n, ok == (n in used))
        if ok:
            c.prove("material_" + n, e.bodies["a"].material == n and e.bodies["b"].material == "default")


@harness("R10", "api.create_surfaces_interaction api.create_gravity_force api.create_damping_force api.set_body_type", "every coefficient, both signs")
def illegal_values_rejected(c):
    A, e = scene(c, False)
    what = c.choose("what", ["interaction", "gravity", "damping", "type"])
    x = [c.real("x%d" % i, -2, 2) for i in range(4)]
    ok = True
    try:
        if what == "interaction":
            legal = c.all(*[y >= 0 for y in x])
            A.create_surfaces_interaction(e, "x", "y", x[0], c.array(x[1:]))
        elif what == "gravity":
            legal = x[0] > 0
            A.create_gravity_force(e, "g", x[0], c.array([0, 1, 0]))
        elif what == "damping":
            legal = c.all(x[0] > 0, x[1] > 0)
            A.create_damping_force(e, "d", x[0], x[1])
        else:
            legal = False
            A.set_body_type(e, "a", "floating")
    except RuntimeError:
        ok = False
    c.prove("legal", legal) if ok else c.prove("illegal", c.no(legal))
    if ok and what == "gravity":
        c.eq("g", e.forces["g"].g, x[0])
    if ok and what == "damping":
        c.eq("alpha", e.forces["d"].alpha, x[0])
        c.eq("beta", e.forces["d"].beta, x[1])
    if not ok:
        c.prove("nothing_stored", not e.forces and len(e.surfaces_interactions.storage) == 1 and e.bodies["a"].is_fixed is False)


@harness("R10", "api.create_gravity_force", "every up direction of non-zero length", t_branch=300)
def gravity_direction(c):
    A, e = scene(c, False)
    u, s = c.unit("u"), c.pos("s")
    given = c.array([s * x for x in u])
    A.create_gravity_force(e, "g", 9, given)
    c.eq("unit_up", e.forces["g"].up, u)
    given[0] = 9
    c.eq("own_copy", e.forces["g"].up, u)


NAMED = {"set_position": ([0, 0, 0],), "get_position": (), "set_orientation": ([1, 0, 0, 0],), "get_orientation": (), "set_velocity": ([0, 0, 0],),
         "get_velocity": (), "set_spin": ([0, 0, 0],), "get_spin": (), "set_mass_properties": (1.0,), "set_body_type": ("fixed",),
         "is_fixed_body": (), "set_body_material": ("default",), "connect_force": ("g",), "connect_shape": ("s",)}


@harness("R10", "api.create_rigid_body api.create_hinge api.create_shape api.set_hinge api.connect_force api.connect_shape", "every call with a name that is unknown, and every second creation of a name")
def names_rejected(c):
    A, e = scene(c, True)
    A.create_hinge(e, "h")
    A.create_gravity_force(e, "g", 1.0, c.array([0, 1, 0]))
    A.create_damping_force(e, "d", 1.0, 1.0)
    A.connect_force(e, "a", "g")
    x = c.real("x")
    z, up = c.array([x, 0, 0]), c.array([0, 0, 1])
    calls = {}
    for n, args in NAMED.items():
        calls[n] = lambda n=n, args=args: getattr(A, n)(e, "nobody", *[c.array(a) if isinstance(a, list) else a for a in args])
    calls.update({
        "body_twice": lambda: A.create_rigid_body(e, "a"), "hinge_twice": lambda: A.create_hinge(e, "h"),
        "shape_twice": lambda: A.create_shape(e, "s", None), "gravity_twice": lambda: A.create_gravity_force(e, "d", 1.0, up),
        "damping_twice": lambda: A.create_damping_force(e, "g", 1.0, 1.0), "force_twice": lambda: A.connect_force(e, "a", "g"),
        "no_such_force": lambda: A.connect_force(e, "a", "f"), "no_such_shape": lambda: A.connect_shape(e, "a", "t"),
        "no_such_hinge": lambda: A.set_hinge(e, "k", "a", "b", z, up), "no_such_parent": lambda: A.set_hinge(e, "h", "c", "b", z, up),
        "no_such_child": lambda: A.set_hinge(e, "h", "a", "c", z, up), "no_such_mode": lambda: A.set_hinge(e, "h", "a", "b", z, up, "other"),
        "no_shape_for_mass": lambda: A.set_mass_properties(e, "b", 1.0)})
    what = c.choose("call", sorted(calls))
    try:
        calls[what]()
    except (RuntimeError, ValueError):
        b = e.bodies["a"]
        c.prove("nothing_changed", list(e.bodies) == ["a", "b"] and list(e.hinges) == ["h"] and e.hinges["h"].parent is None
                and list(e.forces) == ["g", "d"] and list(e.shapes) == ["s"] and len(b.forces) == 1 and b.shape is e.shapes["s"])
        c.eq("not_moved", b.r, [0, 0, 0])
        return
    c.fail("rejected_" + what)


@harness("R10", "api.set_body_type api.is_fixed_body", "every sequence of two types on either of two bodies")
def body_types(c):
    A, e = scene(c, False)
    n, other = c.choose("body", [("a", "b"), ("b", "a")])
    for step in range(2):
        t = c.choose("type%d" % step, ["fixed", "free", "Fixed", "Free", "FIXED", "FREE"])
        A.set_body_type(e, n, t)
        c.prove("type%d" % step, bool(A.is_fixed_body(e, n)) == (t.lower() == "fixed") == bool(e.bodies[n].is_fixed))
        c.prove("other_untouched%d" % step, not A.is_fixed_body(e, other))
