"""Scene set-up of the deformable body simulator."""
import itertools

from symx.harness import harness
from common import *
AP = "rainbow.simulators.prox_soft_bodies.api"
ST = "rainbow.simulators.prox_soft_bodies.types"
SO = "rainbow.simulators.prox_soft_bodies.solver"
NOTE = """Real arithmetic.  Meshes of one or two tetrahedra whose corners may each move by 0.2 from the listed place; the signed distance sampling (libigl), the principal direction (Q07), the bounding volume tree (G03) and the hash grid table are stand-ins.  Names are taken from a fixed small set, implicit functions return an arbitrary number at every vertex."""
MESHES = {"one": ([[0, 0, 0], [3, 0, 0], [2, 1, 0], [1, 0, 2]], [[0, 1, 2, 3]]),
          "two": ([[0, 0, 0], [3, 1, 0], [1, 2, 0], [2, 0, 2], [5, 3, 3]], [[0, 1, 2, 3], [4, 2, 1, 3]])}


class Table:
    cell_size = 0

    def __init__(self, *a, **k):
        self.rows = 0

    def increment_hash_table_size(self, n):
        self.rows += n

    @staticmethod
    def compute_optial_cell_size(V, T):
        return 1.5


def mesh_of(c, name, tag, freeze=False):
    V, T = MESHES[name]
    off = [[c.real("%s_%d%d" % (tag, i, k), -0.2, 0.2) if not freeze else 0 for k in range(3)] for i in range(len(V))]
    return c.array([[V[i][k] + off[i][k] for k in range(3)] for i in range(len(V))]), c.iarray(T)


def set_up(c):
    A = c.mod(AP)
    c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", Table)
    seen = []
    c.patch(c.mod("rainbow.geometry.grid3"), "create_signed_distance", lambda V, Tt, i, j, k, b: seen.append(("grid", copy_of(c, V), Tt, (i, j, k), b)) or "grid")
    c.patch(c.mod("rainbow.geometry.kdop_bvh"), "make_bvh", lambda V, Tt, K, N, env: seen.append(("bvh", copy_of(c, V), Tt, K, env)) or "tree")
    c.patch(c.mod("rainbow.math.functions"), "direction_of_most_variance", lambda V: c.array([1.0, 0.0, 0.0]))
    return A, seen


def order_of(c, P, Q):
    """Q is a reordering of the points P (none equal): index in P of every Q"""
    out = []
    for q in Q:
        d = [[q[k] - p[k] for k in range(3)] for p in P]
        hit = [i for i, r in enumerate(d) if all(x.is_const() and x.const_value() == 0 if hasattr(x, "is_const") else x == 0 for x in r)]
        c.prove("known_vertex", len(hit) == 1)
        out.append(hit[0])
    return out


@harness("D04", "api.create_soft_body", "two bodies in either order of the two meshes, every corner position, with the hash grid or the tree", t_branch=300, time=300, minmax="define")
def bodies(c):
    A, seen = set_up(c)
    e = A.create_engine()
    e.params.use_spatial_hashing = c.choose("hashing", [True, False])
    e.params.envelope = c.real("envelope", 0.01, 2)
    names = c.choose("meshes", [("one", "two"), ("two", "one"), ("two", "two")])
    given = []
    for i, m in enumerate(names):
        V, Tt = mesh_of(c, m, "ab"[i])
        kV, kT = copy_of(c, V), [[int(x) for x in r] for r in Tt]
        A.create_soft_body(e, "ab"[i], V, Tt)
        c.eq("vertices_kept", V, kV)
        c.prove("elements_kept", [[int(x) for x in r] for r in Tt] == kT)
        given.append((kV, kT))
        for j in range(len(V)):                  # the caller goes on using its arrays
            V[j][0] = 50
    n, faces = 0, 0
    for i, b in enumerate(e.bodies.values()):
        kV, kT = given[i]
        c.prove("numbering", b.name == "ab"[i] and b.idx == i and b.offset == n)
        n += len(kV)
        where = order_of(c, kV, b.x0)
        for j, w in enumerate(where):
            c.eq("material_vertex%d" % j, b.x0[j], kV[w])
            c.eq("spatial_vertex%d" % j, b.x[j], kV[w])
            c.eq("at_rest%d" % j, b.u[j], [0, 0, 0])
        els = [tuple(where[int(v)] for v in t) for t in b.T]
        c.prove("same_elements", sorted(els) == sorted(tuple(t) for t in kT))
        for k, t in enumerate(els):
            X = [kV[v] for v in t]
            c.eq("volume%d" % k, b.vol0[k], dot(X[3] - X[0], cross(c, X[1] - X[0], X[2] - X[0])) / 6)
        # every boundary face of the mesh exactly once, owned by its element
        want = {}
        for k, t in enumerate(els):
            for v in range(4):
                want.setdefault(frozenset(t[:v] + t[v + 1:]), []).append(k)
        want = {f: k[0] for f, k in want.items() if len(k) == 1}
        got = {frozenset(where[int(v)] for v in f): int(o[0]) for f, o in zip(b.surface, b.owners)}
        c.prove("surface", got == want and len(b.surface) == len(want))
        faces += len(want)
        g = [s for s in seen if s[0] == "grid"][i]
        c.eq("field_of_material_shape", g[1], b.x0)
        c.prove("field_margin", g[4] >= 2 * e.params.envelope)
        c.prove("field_surface_and_resolution", g[2] is b.surface and g[3] == (e.params.resolution,) * 3 and b.grid == "grid")
        b.x[0][0] = 99                           # spatial and material coordinates do not share storage
        c.prove("not_shared", bool(b.x0[0][0] < 90))
    c.prove("nodes", e.number_of_nodes == n)
    if e.params.use_spatial_hashing:
        c.prove("hash_grid_prepared", e.hash_grid.rows == faces and e.hash_grid.cell_size > 0)
    else:
        c.prove("trees", all(b.bvh == "tree" for b in e.bodies.values()) and len([s for s in seen if s[0] == "bvh"]) == 2)


def small(c, kind="two"):
    """an engine with body a (listed mesh) and body b (one element)"""
    A, seen = set_up(c)
    e = A.create_engine()
    for n, m in (("a", kind), ("b", "one")):
        V, Tt = mesh_of(c, m, n, freeze=True)
        A.create_soft_body(e, n, V, Tt)
    return A, e


@harness("D04", "api.create_dirichlet_conditions types.DirichletCondition", "every implicit function (an arbitrary number at every vertex), either body, one or two calls", t_branch=300, time=300)
def prescribed_nodes(c):
    A, e = small(c, "one")
    who = c.choose("body", ["a", "b"])
    b = e.bodies[who]
    other = e.bodies["b" if who == "a" else "a"]
    vals = [c.real("phi%d" % i, -1, 1) for i in range(len(b.x0))]
    at = [[float(x) for x in p] for p in b.x0]

    def phi(p):
        return vals[at.index([float(x) for x in p])]
    b.x[0][1] = 7                       # deformed already: the decision is taken in material coordinates
    A.create_dirichlet_conditions(e, who, phi)
    got = {int(d.idx): d.value for d in b.dirichlet_conditions}
    c.prove("one_each", len(got) == len(b.dirichlet_conditions))
    for i in range(len(vals)):
        c.prove("node%d" % i, (vals[i] <= 0) if i in got else c.no(vals[i] <= 0))
        if i in got:
            c.eq("value%d" % i, got[i], at[i])
            got[i][0] = 88
            c.eq("own_copy%d" % i, b.x0[i], at[i])
    c.prove("other_body", other.dirichlet_conditions == [])


@harness("D04", "api.create_traction_conditions types.TractionCondition", "every implicit function (an arbitrary number at every vertex), every load", t_branch=300, time=300, max_paths=4000)
def loaded_faces(c):
    A, e = small(c, c.choose("mesh", ["one", "two"]))
    b = e.bodies["a"]
    vals = [c.real("phi%d" % i, -1, 1) for i in range(len(b.x0))]
    at = [[float(x) for x in p] for p in b.x0]
    load = c.vec("load")
    keep = copy_of(c, load)
    A.create_traction_conditions(e, "a", lambda p: vals[at.index([float(x) for x in p])], load)
    load[0] = 66
    got = [(int(t.i), int(t.j), int(t.k)) for t in b.traction_conditions]
    c.prove("one_each", len(set(got)) == len(got))
    for f in b.surface:
        f = tuple(int(v) for v in f)
        turns = [f, f[1:] + f[:1], f[2:] + f[:2]]
        inside = c.all(*[vals[v] <= 0 for v in f])
        c.prove("face%d%d%d" % f, inside if any(t in got for t in turns) else c.no(inside))
    for t in b.traction_conditions:
        c.eq("load", t.traction, keep)
    c.prove("only_surface_faces", len(got) <= len(b.surface))
    c.prove("other_body", e.bodies["b"].traction_conditions == [])


@harness("D04", "api.set_velocity api.set_spatial_coordinates api.get_material_coordinates api.set_gravity api.set_type", "every value")
def state(c):
    A, e = small(c, "one")
    b, o = e.bodies["a"], e.bodies["b"]
    x0, ox = copy_of(c, b.x0), copy_of(c, o.x)
    v, g = c.vec("v"), c.vec("g")
    X = c.mat("X", 4, 3)
    kv, kg, kX = copy_of(c, v), copy_of(c, g), copy_of(c, X)
    A.set_velocity(e, "a", v)
    A.set_gravity(e, "a", g)
    A.set_spatial_coordinates(e, "a", X)
    for i in range(3):
        v[i], g[i], X[0][i] = 5, 6, 7          # the caller goes on using its arrays
    for i in range(4):
        c.eq("velocity%d" % i, b.u[i], kv)
    b.u[0][0] = 4
    c.eq("nodes_do_not_share", b.u[1], kv)
    c.eq("gravity", b.gravity, kg)
    c.eq("spatial", b.x, kX)
    c.eq("material", b.x0, x0)
    got = A.get_material_coordinates(e, "a")
    c.eq("material_read", got, x0)
    got[0][0] = 44
    c.eq("material_not_shared", A.get_material_coordinates(e, "a"), x0)
    c.eq("other_velocity", o.u, [[0, 0, 0]] * 4)
    c.eq("other_spatial", o.x, ox)
    for t, want in (("fixed", True), ("FREE", False), ("Fixed", True)):
        A.set_type(e, "a", t)
        c.prove("type_" + t, b.is_fixed is want and o.is_fixed is False)


@harness("D04", "api.create_material api.set_material api.set_elasticity api.set_viscosity api.set_mass_density api.set_constitutive_model", "every parameter; two materials, two bodies", t_branch=300)
def materials(c):
    A, e = small(c, c.choose("mesh", ["one", "two"]))
    T, S = c.mod(ST), c.mod(SO)
    p = {}
    for m in ("steel", "wood"):
        A.create_material(e, m)
        E, nu, visc, rho = c.real("E" + m, 0.1, 100), c.real("nu" + m, 0, 0.45), c.real("c" + m, 0, 3), c.real("rho" + m, 0, 3)
        A.set_elasticity(e, m, E, nu)
        A.set_viscosity(e, m, visc)
        A.set_mass_density(e, m, rho)
        A.set_constitutive_model(e, m, T.SNH if m == "steel" else T.SVK)
        p[m] = (E, nu, visc, rho)
    assign = c.choose("assign", [("steel", "wood"), ("wood", "wood"), ("default", "steel")])
    lumped = c.choose("lumped", [True, False])
    for b, m in zip(e.bodies.values(), assign):
        b.is_lumped = lumped
        A.set_material(e, b.name, m)
    for m, (E, nu, visc, rho) in p.items():
        d = e.materials[m]
        c.eq("parameters_" + m, [d.E, d.nu, d.c, d.rho], [E, nu, visc, rho])
        c.prove("model_" + m, d.name == m and d.constitutive_model is (T.SNH if m == "steel" else T.SVK))
    for b, m in zip(e.bodies.values(), assign):
        d = e.materials[m]
        c.prove("assigned_" + b.name, b.material_description is d)
        for arr, dens, what in ((b.M_array, d.rho, "mass"), (b.C_array, d.c, "damping")):
            for k in range(len(b.T)):
                for ax in range(3):
                    tot = sum(arr[k][i][j][ax][ax] for i in range(4) for j in range(4))
                    c.eq("%s_of_element_%s%d.%d" % (what, b.name, k, ax), tot, dens * b.vol0[k])


@harness("D04", "api.create_surfaces_interaction types.SurfacesInteractionLibrary.get_interaction", "two interactions between materials out of four names, every coefficient", t_branch=300)
def interactions(c):
    A, e = small(c, "one")
    L = e.surfaces_interactions
    names = ["default", "x", "y", "z"]
    for n in names[1:]:
        A.create_material(e, n)
    PAIRS = [("x", "y"), ("y", "x"), ("x", "x"), ("default", "x"), ("z", "default")]
    first, second = c.choose("first", PAIRS), c.choose("second", PAIRS)
    if set(first) == set(second):
        A.create_surfaces_interaction(e, first[0], first[1], 0.5)
        try:
            A.create_surfaces_interaction(e, second[0], second[1], 0.25)
        except RuntimeError:
            c.eq("first_stays", L.get_interaction(*first).mu[0], 0.5)
            return
        c.fail("second_definition_rejected")
    vals = {frozenset(first): c.real("m1", 0, 2), frozenset(second): c.real("m2", 0, 2)}
    for q in (first, second):
        A.create_surfaces_interaction(e, q[0], q[1], vals[frozenset(q)])
    d = L.get_interaction("default", "default")
    for a in names:
        for b in names:
            i1, i2 = L.get_interaction(a, b), L.get_interaction(b, a)
            c.prove("symmetric_%s_%s" % (a, b), i1 is i2)
            key = frozenset((a, b))
            c.prove("exists_%s_%s" % (a, b), L.exist_interaction(a, b) == (key in vals or key == frozenset(["default"])))
            if key in vals:
                c.eq("mu_%s_%s" % (a, b), i1.mu[0], vals[key])
            else:
                c.prove("falls_back_%s_%s" % (a, b), i1 is d)
    c.eq("default_mu", d.mu, [1, 1, 1])


@harness("D04", "api.set_elasticity api.set_viscosity api.set_mass_density api.create_surfaces_interaction", "every parameter of either sign", t_branch=300)
def illegal_values_rejected(c):
    A, e = small(c, "one")
    A.create_material(e, "m")
    d = e.materials["m"]
    old = (d.E, d.nu, d.c, d.rho)
    what = c.choose("what", ["elasticity", "viscosity", "density", "friction"])
    x, y = c.real("x", -2, 2), c.real("y", -2, 2)
    ok = True
    try:
        if what == "elasticity":
            legal = c.all(x > 0, y >= 0, y <= 0.5)
            A.set_elasticity(e, "m", x, y)
        elif what == "viscosity":
            legal = x >= 0
            A.set_viscosity(e, "m", x)
        elif what == "density":
            legal = x >= 0
            A.set_mass_density(e, "m", x)
        else:
            legal = x >= 0
            A.create_surfaces_interaction(e, "m", "default", x)
    except (ValueError, RuntimeError):
        ok = False
    c.prove("legal", legal) if ok else c.prove("illegal", c.no(legal))
    if not ok:
        c.prove("nothing_changed", (d.E, d.nu, d.c, d.rho) == old and len(e.surfaces_interactions.storage) == 1)


@harness("D04", "api.set_velocity api.set_type api.set_material api.create_material api.create_soft_body", "every call with a name that is unknown, every second creation of a name, wrong shapes")
def names_rejected(c):
    A, e = small(c, "one")
    A.create_material(e, "m")
    x = c.real("x")
    V, Tt = mesh_of(c, "one", "n", freeze=True)
    phi = lambda p: -1
    load = c.array([x, 0, 0])
    T = c.mod(ST)
    calls = {
        "velocity": lambda: A.set_velocity(e, "nobody", [0, x, 0]), "velocity_length": lambda: A.set_velocity(e, "a", [0, x]),
        "gravity": lambda: A.set_gravity(e, "nobody", [0, x, 0]), "gravity_length": lambda: A.set_gravity(e, "a", [0, x]),
        "type": lambda: A.set_type(e, "nobody", "fixed"), "type_kind": lambda: A.set_type(e, "a", "floating"),
        "spatial": lambda: A.set_spatial_coordinates(e, "nobody", V), "spatial_shape": lambda: A.set_spatial_coordinates(e, "a", V[:3]),
        "material_read": lambda: A.get_material_coordinates(e, "nobody"), "dirichlet": lambda: A.create_dirichlet_conditions(e, "nobody", phi),
        "traction": lambda: A.create_traction_conditions(e, "nobody", phi, load), "twice": lambda: A.create_soft_body(e, "a", V, Tt),
        "material_twice": lambda: A.create_material(e, "m"), "set_material_body": lambda: A.set_material(e, "nobody", "m"),
        "set_material_name": lambda: A.set_material(e, "a", "k"), "elasticity": lambda: A.set_elasticity(e, "k", 1, 0.25),
        "viscosity": lambda: A.set_viscosity(e, "k", 1), "density": lambda: A.set_mass_density(e, "k", 1), "model": lambda: A.set_constitutive_model(e, "k", T.SVK),
        "interaction_A": lambda: A.create_surfaces_interaction(e, "k", "m", 0.5), "interaction_B": lambda: A.create_surfaces_interaction(e, "m", "k", 0.5)}
    what = c.choose("call", sorted(calls))
    x0 = copy_of(c, e.bodies["a"].x)
    try:
        calls[what]()
    except (RuntimeError, ValueError):
        b = e.bodies["a"]
        c.prove("nothing_changed", list(e.bodies) == ["a", "b"] and list(e.materials) == ["default", "m"] and len(e.surfaces_interactions.storage) == 1
                and b.is_fixed is False and b.material_description is None and b.dirichlet_conditions == [] and b.traction_conditions == [] and e.number_of_nodes == 8)
        c.eq("not_moved", b.x, x0)
        return
    c.fail("rejected_" + what)
