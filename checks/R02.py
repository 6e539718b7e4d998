"""Rigid body time integration."""
from symx.harness import harness
from common import *
TY = "rainbow.simulators.prox_rigid_bodies.types"
ST = "rainbow.simulators.prox_rigid_bodies.steppers"
SS = "rainbow.simulators.prox_rigid_bodies.state_storage"
NOTE = """Real arithmetic. Up to three bodies, every fixed/free pattern and order. Collision detection and the constraint solver are
stand-ins in the constrained harnesses: they deliver arbitrary contacts and arbitrary impulses, so the step is decided for every solver outcome."""


def make_body(c, T, name, idx, fixed=False, unit_q=True):
    b = T.RigidBody(name)
    b.idx = idx
    b.r = c.vec(name + ".r")
    b.q = c.quat(name + ".q") if unit_q else c.array([c.real("%s.q%d" % (name, i), -1, 1) for i in range(4)])
    b.v, b.w = c.vec(name + ".v"), c.vec(name + ".w")
    b.mass = c.real(name + ".m", 0.1, 10)
    b.inertia = c.array([c.real("%s.I%d" % (name, i), 0.1, 10) for i in range(3)])
    b.is_fixed = fixed
    return b


def snap(c, b):
    return dict(r=copy_of(c, b.r), q=copy_of(c, b.q), v=copy_of(c, b.v), w=copy_of(c, b.w))


def world(c, R, d):
    return mm(c, R, mm(c, c.array([[d[i] if i == j else 0 for j in range(3)] for i in range(3)]), tr(c, R)))


def engine_of(c, T, bodies):
    e = T.Engine()
    for b in bodies:
        e.bodies[b.name] = b
    return e


def forces_for(c, T, kinds):
    out = {}
    if "gravity" in kinds:
        g = T.Gravity("gravity")
        g.g = c.real("g", -20, 20)
        g.up = c.array([c.real("up%d" % i, -1, 1) for i in range(3)])
        out["gravity"] = g
    if "damping" in kinds:
        d = T.Damping("damping")
        d.alpha, d.beta = c.real("alpha", 0, 2), c.real("beta", 0, 2)
        out["damping"] = d
    return out


def expected_force(c, b, s, R, fs):
    """force and torque that act on body b in state s, gyroscopic term included"""
    F, Tq = [0, 0, 0], list(-cross(c, s["w"], mv(c, world(c, R, b.inertia), s["w"])))
    for f in b.forces:
        if f.force_type == "Gravity":
            F = [F[i] - b.mass * f.g * f.up[i] for i in range(3)]
        else:
            F = [F[i] - f.alpha * s["v"][i] for i in range(3)]
            Tq = [Tq[i] - f.beta * s["w"][i] for i in range(3)]
    return F, Tq


PATTERNS = ["F", "f", "Ff", "fF", "FF", "FfF", "fFf", "FFF"]      # F free, f fixed


@harness("R02", "state_storage.StateStorage.copy_from_engine copy_to_engine", "one to three bodies, every state", t_branch=300)
def copy_there_and_back(c):
    T, S = c.mod(TY), c.mod(SS)
    pat = c.choose("bodies", PATTERNS)
    bodies = [make_body(c, T, "b%d" % i, i, k == "f", unit_q=True) for i, k in enumerate(pat)]
    e = engine_of(c, T, bodies)
    before = [snap(c, b) for b in bodies]
    s = S.StateStorage()
    s.copy_from_engine(e)
    for b in bodies:
        b.r, b.q, b.v, b.w = c.array([0, 0, 0]), c.array([1, 0, 0, 0]), c.array([0, 0, 0]), c.array([0, 0, 0])
    s.copy_to_engine(e)
    for b, o in zip(bodies, before):
        for k in o:
            c.eq("%s.%s" % (b.name, k), getattr(b, k), o[k])
    # writing one body's state afterwards must not reach another body
    bodies[0].v[0] = bodies[0].v[0] + 1
    bodies[0].q[1] = bodies[0].q[1] + 1
    for b, o in list(zip(bodies, before))[1:]:
        for k in o:
            c.eq("separate.%s.%s" % (b.name, k), getattr(b, k), o[k])


@harness("R02", "state_storage._compute_total_external_forces _compute_inverse_mass_matrix types.Gravity types.Damping", "two bodies in both orders, every fixed/free pattern, every assignment of gravity and damping", t_branch=300)
def accelerations(c):
    T, S = c.mod(TY), c.mod(SS)
    pat = c.choose("bodies", ["F", "f", "Ff", "fF", "FF"])
    kinds = c.choose("forces", [("",), ("gravity",), ("damping",), ("gravity", "damping"), ("damping", "gravity")])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f") for i, k in enumerate(pat)]
    fs = forces_for(c, T, kinds)
    bodies[0].forces = [fs[k] for k in kinds if k]
    if len(bodies) > 1:
        bodies[1].forces = [fs[k] for k in kinds[:1] if k]
    e = engine_of(c, T, bodies)
    e.forces.update(fs)
    before = [snap(c, b) for b in bodies]
    s = S.StateStorage()
    s.copy_from_engine(e)
    n = len(bodies)
    c.prove("sizes", s.x.shape == (7 * n,) and s.u.shape == (6 * n,) and s.f_ext.shape == (6 * n,) and s.W.shape == (6 * n, 6 * n))
    W = s.W.toarray()
    for k, b in enumerate(bodies):
        a = s.delta_u_ext[6 * k: 6 * k + 6]
        f = s.f_ext[6 * k: 6 * k + 6]
        if b.is_fixed:
            c.eq("fixed_never_accelerates.%d" % k, a, [0] * 6)
            for i in range(6):
                c.eq("fixed_row.%d.%d" % (k, i), W[6 * k + i], [0] * (6 * n))
            continue
        R = R_of(c, before[k]["q"])
        F, Tq = expected_force(c, b, before[k], R, fs)
        c.eq("force.%d" % k, f[:3], F)
        c.eq("torque.%d" % k, f[3:], Tq)
        c.eq("linear.%d" % k, [b.mass * a[i] for i in range(3)], F)
        c.eq("angular.%d" % k, mv(c, world(c, R, b.inertia), a[3:]), Tq)
        for i in range(6):
            for j in range(6 * n):
                if j // 6 != k or (i < 3) != (j % 6 < 3):
                    c.eq("uncoupled.%d.%d.%d" % (k, i, j), W[6 * k + i][j], 0)
        for i in range(3):
            for j in range(3):
                c.eq("symmetric.%d.%d%d" % (k, i, j), W[6 * k + 3 + i][6 * k + 3 + j], W[6 * k + 3 + j][6 * k + 3 + i])
    for b, o in zip(bodies, before):
        for k in o:
            c.eq("engine_untouched.%s.%s" % (b.name, k), getattr(b, k), o[k])


def expected_step(c, s, du, dt):
    """semi-implicit Euler from the old state s with velocity change du"""
    v = [s["v"][i] + du[i] for i in range(3)]
    w = [s["w"][i] + du[3 + i] for i in range(3)]
    r = [s["r"][i] + dt * v[i] for i in range(3)]
    om = qmul(c, [0, w[0], w[1], w[2]], s["q"])
    qt = [s["q"][i] + dt / 2 * om[i] for i in range(4)]
    return v, w, r, qt


def upright(c, T, pat):
    """bodies in arbitrary states whose orientation is the identity or a half turn (other orientations: accelerations, updates)"""
    bodies = [make_body(c, T, "b%d" % i, i, k == "f", unit_q=False) for i, k in enumerate(pat)]
    for i, b in enumerate(bodies):
        b.q = c.array([0.0, 1.0, 0.0, 0.0]) if i == 1 else c.array([1.0, 0.0, 0.0, 0.0])
    return bodies


def check_body(c, b, s, du, dt, name, positions=True):
    if b.is_fixed:
        for k in ("r", "q", "v", "w"):
            c.eq("%s.fixed_%s" % (name, k), getattr(b, k), s[k])
        return
    v, w, r, qt = expected_step(c, s, du, dt)
    c.eq(name + ".v", b.v, v)
    c.eq(name + ".w", b.w, w)
    if positions:
        c.eq(name + ".r", b.r, r)
        check_q(c, b.q, qt, name, s["q"])


def plain_unit(c, limit=9):
    """normalisation without its zero test: harness `updates` decides that test for every angular velocity (|q'| >= |q|), Q01 the function"""
    if c.sym:
        seen = []

        def unit(q):
            if getattr(dot(q, q), "is_const", lambda: True)():
                return c.array([x / c.np.sqrt(dot(q, q)) for x in q])
            n = c.fresh("norm", nonneg=True, num=float(sum(c.ctx.num_eval(x) ** 2 for x in q)) ** 0.5 if c.numeric else None)
            seen.append(n)
            if len(seen) <= limit:
                c.axiom(n * n == dot(q, q))
            c.axiom(n > 0)
            return c.array([x / n for x in q])
        c.patch(c.mod(QM), "unit", unit)


def check_q(c, q, qt, name, old):
    """q = qt / |qt|"""
    c.eq(name + ".unit", dot(q, q), 1)
    for i in range(4):
        for j in range(i):
            c.eq("%s.q%d%d" % (name, i, j), q[i] * qt[j], q[j] * qt[i])
    c.prove(name + ".same_side", dot(q, old) > 0)      # qt.old = |old|^2 > 0


@harness("R02", "steppers.SemiImplicitStepper.step state_storage.velocity_update position_update", "one and two bodies without contacts, every fixed/free pattern, gravity and damping, every time step in (0, 1]", t_branch=300, time=400)
def free_flight(c):
    T, P = c.mod(TY), c.mod(ST)
    c.patch(P.CD, "run_collision_detection", lambda *a, **k: None)
    plain_unit(c)
    pat = c.choose("bodies", ["F", "f", "Ff", "fF", "FF"])
    kinds = c.choose("forces", [(), ("gravity", "damping")])
    bodies = upright(c, T, pat)
    fs = forces_for(c, T, kinds)
    for b in bodies[:1]:
        b.forces = [fs[k] for k in kinds]
    e = engine_of(c, T, bodies)
    e.forces.update(fs)
    dt = c.real("dt", 0.001, 1)
    before = [snap(c, b) for b in bodies]
    P.SemiImplicitStepper().step(dt, e, False)
    for k, b in enumerate(bodies):
        if b.is_fixed:
            check_body(c, b, before[k], None, dt, "b%d" % k)
            continue
        R = R_of(c, before[k]["q"])
        F, Tq = expected_force(c, b, before[k], R, fs)
        I = world(c, R, b.inertia)
        c.eq("b%d.momentum" % k, [b.mass * (b.v[i] - before[k]["v"][i]) for i in range(3)], [dt * x for x in F])
        c.eq("b%d.angular" % k, mv(c, I, [b.w[i] - before[k]["w"][i] for i in range(3)]), [dt * x for x in Tq])
        c.eq("b%d.r" % k, b.r, [before[k]["r"][i] + dt * b.v[i] for i in range(3)])
        om = qmul(c, [0, b.w[0], b.w[1], b.w[2]], before[k]["q"])
        check_q(c, b.q, [before[k]["q"][i] + dt / 2 * om[i] for i in range(4)], "b%d" % k, before[k]["q"])


@harness("R02", "state_storage.StateStorage.position_update velocity_update", "one to three bodies, every fixed/free pattern, state, velocity change, displacement and time step", t_branch=300)
def updates(c):
    T, S = c.mod(TY), c.mod(SS)
    pat = c.choose("bodies", PATTERNS)
    given = c.choose("velocity", ["own", "given"])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f") for i, k in enumerate(pat)]
    e = engine_of(c, T, bodies)
    before = [snap(c, b) for b in bodies]
    s = S.StateStorage()
    n = len(bodies)
    s.copy_from_engine(e)
    du = c.array([c.real("du%d" % i, -5, 5) for i in range(6 * n)])
    keep = copy_of(c, du)
    dt = c.real("dt", 0.001, 1)
    s.velocity_update(du)
    if given == "given":
        g = c.array([c.real("g%d" % i, -5, 5) for i in range(6 * n)])
        s.position_update(dt=dt, engine=e, u=g)
    else:
        g = None
        s.position_update(dt, e)
    c.eq("argument_kept", du, keep)
    s.copy_to_engine(e)
    for k, b in enumerate(bodies):
        o = before[k]
        c.eq("b%d.v" % k, b.v, [o["v"][i] + du[6 * k + i] for i in range(3)])
        c.eq("b%d.w" % k, b.w, [o["w"][i] + du[6 * k + 3 + i] for i in range(3)])
        if b.is_fixed:
            c.eq("b%d.fixed_r" % k, b.r, o["r"])
            c.eq("b%d.fixed_q" % k, b.q, o["q"])
            continue
        u = list(b.v) + list(b.w) if g is None else g[6 * k:6 * k + 6]
        c.eq("b%d.r" % k, b.r, [o["r"][i] + dt * u[i] for i in range(3)])
        om = qmul(c, [0, u[3], u[4], u[5]], o["q"])
        check_q(c, b.q, [o["q"][i] + dt / 2 * om[i] for i in range(4)], "b%d" % k, o["q"])


def contact(c, T, A, B, k, normals=((0, 1, 0), (-1, 0, 0), (0, 0, 1))):
    """a contact with arbitrary position and one of three normals (the contact frame itself is decided by Q05 and R03)"""
    n = c.choose("normal%d" % k, list(normals))
    return T.ContactPoint(A, B, c.vec("p%d" % k), c.array([float(x) for x in n]), c.real("gap%d" % k, -1, 1))


def any_solution(c, P, store):
    """SOLVER.solve stand-in: any impulses"""
    def solve(engine, problems, profile, on, prefix=""):
        for j, prb in enumerate(problems):
            lam = [c.real("lam.%s%s.%d" % (prefix, prb.name, i), -5, 5) for i in range(len(prb.sol))]
            for i, x in enumerate(lam):
                prb.sol[i] = x
                prb.x[i] = x
            store.append((prefix, prb, lam))
    c.patch(P.SOLVER, "solve", solve)


@harness("R02", "steppers.SemiImplicitStepper.step _apply_post_stabilization", "two or three bodies, one contact and one hinge with any impulses (any solver outcome), post-stabilisation on and off, every fixed/free pattern", t_branch=300, time=500, abs="define", minmax="define")
def constrained_step(c):
    T, P = c.mod(TY), c.mod(ST)
    pat = c.choose("bodies", ["FF", "Ff", "fF", "ff", "FfF"])
    what = c.choose("constraints", ["contact", "hinge", "both", "contact_post"])
    plain_unit(c, len(pat) if what == "contact_post" else 9)
    bodies = upright(c, T, pat)
    e = engine_of(c, T, bodies)
    cons = []
    if what != "hinge":
        i, j = c.choose("touching", [(0, 1), (1, 0)] if what == "contact" else [(1, 0)])
        cons.append(contact(c, T, bodies[i], bodies[j], 0, ((0, 1, 0), (-1, 0, 0), (0, 0, 1)) if what == "contact" else ((-1, 0, 0),)))

    def detect(engine, *a, **k):
        engine.contact_points = list(cons)
    c.patch(P.CD, "run_collision_detection", detect)
    if what in ("hinge", "both"):
        CS = c.mod("rainbow.math.coordsys")
        h = T.Hinge("h")
        h.idx = 0
        h.set_parent_socket(bodies[0], CS.make(c.vec("arm_p"), c.array([1.0, 0.0, 0.0, 0.0])))
        h.set_child_socket(bodies[-1], CS.make(c.vec("arm_c"), c.array([1.0, 0.0, 0.0, 0.0])))
        e.hinges["h"] = h
    e.params.use_post_stabilization = what == "contact_post"
    sols = []
    any_solution(c, P, sols)
    g = T.Gravity("gravity")
    bodies[0].forces = [g]
    e.forces["gravity"] = g
    dt = c.real("dt", 0.001, 1)
    before = [snap(c, b) for b in bodies]
    P.SemiImplicitStepper().step(dt, e, False)
    main = [x for x in sols if x[0] == ""]
    post = [x for x in sols if x[0] != ""]
    c.prove("every_constraint_is_solved_for", len(main) == (2 if what == "both" else 1) and len(post) <= (1 if what == "contact_post" else 0))
    for k, b in enumerate(bodies):
        if b.is_fixed:
            check_body(c, b, before[k], None, dt, "b%d" % k)
            continue
        R = R_of(c, before[k]["q"])
        F, Tq = expected_force(c, b, before[k], R, None)
        imp = [dt * F[i] for i in range(3)] + [dt * Tq[i] for i in range(3)]
        for _, prb, lam in main:
            J = prb.J.toarray()
            for i in range(6):
                for row in range(len(lam)):
                    imp[i] = imp[i] + J[row, 6 * k + i] * lam[row]
        I = world(c, R, b.inertia)
        dv = [b.v[i] - before[k]["v"][i] for i in range(3)]
        dw = [b.w[i] - before[k]["w"][i] for i in range(3)]
        c.eq("b%d.momentum" % k, [b.mass * x for x in dv], imp[:3])
        c.eq("b%d.angular" % k, mv(c, I, dw), imp[3:])
        v, w, r, qt = expected_step(c, before[k], list(dv) + list(dw), dt)
        if not post:
            c.eq("b%d.r" % k, b.r, r)
            check_q(c, b.q, qt, "b%d" % k, before[k]["q"])
        else:
            # post-stabilisation shifts by the inverse-mass response of the push, positions only
            J = post[0][1].J.toarray()
            lam = post[0][2]
            push = [0] * 6
            for i in range(6):
                for row in range(len(lam)):
                    push[i] = push[i] + J[row, 6 * k + i] * lam[row]
            c.eq("b%d.shift" % k, [b.mass * (b.r[i] - r[i]) for i in range(3)], push[:3])
    if all(not b.is_fixed for b in bodies) and len(bodies) == 2:
        for i in range(3):
            tot = sum(b.mass * (b.v[i] - o["v"][i]) for b, o in zip(bodies, before))
            c.eq("linear_momentum.%d" % i, tot, -dt * bodies[0].mass * g.g * g.up[i])


@harness("R02", "state_storage.compute_total_energy", "two bodies, every fixed/free pattern, none, one or two gravity fields", t_branch=300)
def energies(c):
    T, S = c.mod(TY), c.mod(SS)
    pat = c.choose("bodies", ["F", "fF", "FF"])
    ng = c.choose("gravities", [0, 1, 2])
    bodies = [make_body(c, T, "b%d" % i, i, k == "f") for i, k in enumerate(pat)]
    e = engine_of(c, T, bodies)
    total = [0, 0, 0]
    for n in range(ng):
        g = T.Gravity("g%d" % n)
        g.g = c.real("g%d" % n, 0.1, 20)
        g.up = c.array([0.0, 1.0, 0.0]) if n else c.array([c.real("up%d" % i, 0.1, 1) for i in range(3)])
        e.forces[g.name] = g
        total = [total[i] + g.g * g.up[i] for i in range(3)]
        for b in bodies:
            b.forces.append(g)
    s = S.StateStorage()
    s.copy_from_engine(e)
    kin, pot = s.compute_total_energy(e)
    K = V = 0
    for b in bodies:
        if b.is_fixed:
            continue
        R = R_of(c, b.q)
        K = K + b.mass * dot(b.v, b.v) / 2 + dot(b.w, mv(c, world(c, R, b.inertia), b.w)) / 2
        V = V + b.mass * dot(total, b.r)
    c.eq("kinetic", kin, K)
    c.eq("potential", pot, V)
