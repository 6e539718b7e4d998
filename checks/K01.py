"""Inverse kinematics: poses, chains, angles and derivatives."""
from symx.harness import harness
from common import *
A = "rainbow.simulators.inverse_kinematics.api"
Q = "rainbow.math.quaternion"
NOTE = """Real arithmetic.  Skeletons of the listed shapes (one to four bones, single chains and trees), every joint angle symbolic, every bone vector, tool and goal symbolic; every joint order appears in every position of a two-bone chain.  Derivatives are compared with derivatives of the symbolic forward kinematics, not with finite differences."""
CODES = ['XZX', 'XYX', 'YXY', 'YZY', 'ZYZ', 'ZXZ', 'XZY', 'XYZ', 'YXZ', 'YZX', 'ZYX', 'ZXY']
ROT = {"X": rx, "Y": ry, "Z": rz}


def code_rotation(c, code, angles):
    M = eye(c)
    for ch, a in zip(code, angles):
        M = mm(c, M, ROT[ch](c, a))
    return M


def build(c, api, parents, codes, angles, t):
    s = api.create_skeleton()
    for i, p in enumerate(parents):
        if p < 0:
            b = api.create_root(s, *angles[i], t[i][0], t[i][1], t[i][2], codes[i])
        else:
            b = api.add_bone(s, p, *angles[i], t[i][0], t[i][1], t[i][2], codes[i])
        c.prove("index%d" % i, b.idx == i and b is s.bones[i])
    return s


def reference(c, parents, codes, angles, t):
    R, o = [], []
    for i, p in enumerate(parents):
        L = code_rotation(c, codes[i], angles[i])
        if p < 0:
            R.append(L), o.append(c.array([v for v in t[i]]))
        else:
            R.append(mm(c, R[p], L)), o.append(o[p] + mv(c, R[p], t[i]))
    return R, o


def joints(c, n, pattern=None):
    """three angles per bone; pattern[i] names the symbolic ones ('abg'), the others are zero"""
    return [[c.angle("%s%d" % (k, i)) if pattern is None or k in pattern[i] else 0.0 for k in "abg"] for i in range(n)]


@harness("K01", "inverse_kinematics.api.update_skeleton create_root add_bone Bone.get_rotation", "two bones, all six angles and both bone vectors arbitrary, every joint order in either position", t_prove=120, time=600)
def two_bones(c):
    api = c.mod(A)
    k = c.choose("codes", list(range(12)))
    codes = [CODES[k], CODES[(5 * k + 7) % 12]]
    ang = joints(c, 2)
    t = [c.vec("t%d" % i, 3) for i in range(2)]
    s = build(c, api, [-1, 0], codes, ang, t)
    api.update_skeleton(s)
    R, o = reference(c, [-1, 0], codes, ang, t)
    for i, b in enumerate(s.bones):
        c.eq("origin%d" % i, b.t_wcs, o[i])
        c.eq("orientation%d" % i, R_of(c, b.q_wcs), R[i])


SHAPES = {"single": [-1], "chain2": [-1, 0], "chain3": [-1, 0, 1], "fork": [-1, 0, 0], "late_fork": [-1, 0, 1, 1], "crossed": [-1, 0, 0, 1]}
PATTERNS = {1: [["abg"]], 2: [["abg", "b"], ["g", "abg"], ["ab", "bg"]],
            3: [["a", "b", "g"], ["bg", "a", ""], ["", "ag", "b"], ["g", "", "ab"]], 4: [["a", "b", "g", "b"], ["g", "a", "b", "a"]]}


@harness("K01", "inverse_kinematics.api.update_skeleton make_chains get_end_effector set_joint_angles", "trees of one to four bones, up to four arbitrary joint angles, bone vectors, tool and a previous pose arbitrary", t_prove=120, time=600)
def trees(c):
    api = c.mod(A)
    shape = c.choose("shape", sorted(SHAPES))
    parents = SHAPES[shape]
    n = len(parents)
    k = c.choose("pattern", [0, 1])
    pat = PATTERNS[n][k % len(PATTERNS[n])]
    codes = [CODES[(7 * k + 5 * i + 3) % 12] for i in range(n)]
    ang = joints(c, n, pat)
    t = [c.vec("t%d" % i, 3) for i in range(n)]
    start = [[c.angle("old%d" % i), 0.0, 0.0] for i in range(n)]
    s = build(c, api, parents, codes, start, t)
    api.update_skeleton(s) if k else None
    flat = c.array([a for row in ang for a in row])
    api.set_joint_angles(s, flat)
    api.update_skeleton(s)
    R, o = reference(c, parents, codes, ang, t)
    for i, b in enumerate(s.bones):
        c.eq("origin%d" % i, b.t_wcs, o[i])
        c.eq("orientation%d" % i, R_of(c, b.q_wcs), R[i])
        c.eq("vector%d" % i, b.t, t[i])
        c.prove("root%d" % i, b.is_root() == (parents[i] < 0) and b.has_parent() != b.is_root())
        c.prove("children%d" % i, list(b.children) == [j for j, p in enumerate(parents) if p == i])
    chains = api.make_chains(s)
    leaves = [i for i in range(n) if i not in parents]
    c.prove("one_chain_per_leaf", sorted(int(ch.bones[-1]) for ch in chains) == leaves)
    for ch in chains:
        path = [int(ch.bones[-1])]
        while parents[path[0]] >= 0:
            path.insert(0, parents[path[0]])
        c.prove("path%d" % path[-1], [int(i) for i in ch.bones] == path and ch.skeleton is s)
        tool = c.vec("tool%d" % path[-1], 3)
        ch.tool = c.array([v for v in tool])
        c.eq("end_effector%d" % path[-1], api.get_end_effector(ch, s), o[path[-1]] + mv(c, R[path[-1]], tool))
    c.eq("angles_read_back", api.get_joint_angles(s), flat)


@harness("K01", "inverse_kinematics.api.set_joint_angles get_joint_angles set_angle get_angle", "one to three bones, every angle value, every index")
def angles(c):
    api = c.mod(A)
    n = c.choose("bones", [1, 2, 3])
    a = c.vec("a", 3 * n)
    b = c.vec("b", 3 * n)
    s = build(c, api, [-1, 0, 1][:n], ["ZYZ"] * n, [[a[3 * i + j] for j in range(3)] for i in range(n)], [[0.0, 0.0, 1.0]] * n)
    c.eq("created_with", api.get_joint_angles(s), a)
    api.set_joint_angles(s, copy_of(c, b))
    c.eq("set_all", api.get_joint_angles(s), b)
    i = c.choose("index", list(range(9)))
    v = c.real("v")
    if i < 3 * n:
        api.set_angle(i, v, s)
        c.eq("get_one", api.get_angle(i, s), v)
        for j in range(3 * n):
            if j != i:
                c.eq("others%d" % j, api.get_angle(j, s), b[j])
        c.eq("all_agree", api.get_joint_angles(s), [v if j == i else b[j] for j in range(3 * n)])
        out = api.get_joint_angles(s)
        out[0] = 7.0
        c.eq("no_alias", api.get_angle(0, s), v if i == 0 else b[0])


@harness("K01", "inverse_kinematics.api.create_root add_bone", "a second root, a missing parent, an unknown joint order")
def rejected(c):
    api = c.mod(A)

    def refused(f):
        try:
            f()
        except Exception:
            return True
        return False
    s = api.create_skeleton()
    c.prove("bone_without_root", refused(lambda: api.add_bone(s, 0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0)))
    bad = c.choose("code", ["XXZ", "XYY", "zyz", "", "XY", "XYZX", "ABC"])
    c.prove("bad_root_code", refused(lambda: api.create_root(s, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, bad)))
    c.prove("still_empty", len(s.bones) == 0 and not s.has_root())
    good = c.choose("good", CODES)
    api.create_root(s, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, good)
    c.prove("second_root", refused(lambda: api.create_root(s, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0)))
    p = c.choose("parent", [1, -1, 2])
    c.prove("missing_parent", refused(lambda: api.add_bone(s, p, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0)))
    c.prove("bad_bone_code", refused(lambda: api.add_bone(s, 0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, bad)))
    c.prove("nothing_added", len(s.bones) == 1 and s.bones[0].children == [] and s.bones[0].euler_code == good)


def posed(c, api, parents, codes, ang, t, goals=True):
    s = build(c, api, parents, codes, ang, t)
    api.update_skeleton(s)
    chains = api.make_chains(s)
    for k, ch in enumerate(chains):
        ch.tool = c.vec("tool%d" % k, 3)
        ch.goal = c.vec("goal%d" % k, 3) if goals else ch.goal
    return s, chains


def positions(c, parents, codes, t, chains):
    """world positions of the end effectors as a function of all angles"""
    leaves = [(int(ch.bones[-1]), ch.tool) for ch in chains]
    n = len(parents)

    def f(flat):
        R, o = reference(c, parents, codes, [flat[3 * i:3 * i + 3] for i in range(n)], t)
        return c.array([v for k, tool in leaves for v in o[k] + mv(c, R[k], tool)])
    return f


def snapshot(c, s):
    return [(copy_of(c, b.t_wcs), copy_of(c, b.q_wcs), copy_of(c, b.t), b.alpha, b.beta, b.gamma) for b in s.bones]


def unchanged(c, s, before, what=""):
    for i, (b, o) in enumerate(zip(s.bones, before)):
        for nm, x, y in zip(("t_wcs", "q_wcs", "t", "alpha", "beta", "gamma"), (b.t_wcs, b.q_wcs, b.t, b.alpha, b.beta, b.gamma), o):
            c.eq("kept_%s%s%d" % (what, nm, i), x, y)


def setting(c, shapes, codes=12):
    parents = SHAPES[c.choose("skeleton", shapes)]
    n = len(parents)
    r = c.choose("codes", list(range(codes)))
    return parents, [CODES[(5 * i + r) % 12] for i in range(n)]


@harness("K01", "inverse_kinematics.api.compute_jacobian", "one or two bones with all angles arbitrary and every joint order, forks of three bones; bone vectors and tools arbitrary", t_prove=120, time=600)
def jacobian(c):
    api = c.mod(A)
    parents, codes = setting(c, ["single", "chain2", "fork"])
    n = len(parents)
    FORK = ["g", "ab", "bg"]
    ang = joints(c, n, None if n < 3 else FORK)
    t = [c.vec("t%d" % i, 3) for i in range(n)]
    s, chains = posed(c, api, parents, codes, ang, t, goals=False)
    before = snapshot(c, s)
    J = api.compute_jacobian(chains, s)
    unchanged(c, s, before)
    c.prove("shape", J.shape == (3 * len(chains), 3 * n))
    pos = positions(c, parents, codes, t, chains)
    flat = [a for row in ang for a in row]
    free = [i for i in range(3 * n) if n < 3 or "abg"[i % 3] in FORK[i // 3]]

    def f(xs):
        full = list(flat)
        for i, x in zip(free, xs):
            full[i] = x
        return pos(full)
    _, d = c.deriv(f, [flat[i] for i in free])
    for col, i in enumerate(free):
        c.eq("column%d" % i, [J[r, i] for r in range(3 * len(chains))], d[col])


def objective(c, parents, codes, t, chains):
    pos = positions(c, parents, codes, t, chains)
    goals = [v for ch in chains for v in ch.goal]

    def f(flat):
        e = pos(flat)
        return sum((g - x) * (g - x) for g, x in zip(goals, e)) / 2
    return f


# skeleton, symbolic angles, number of joint order assignments
SECOND = [("single", ["abg"], 12), ("chain2", ["ab", "bg"], 3), ("chain2", ["bg", "a"], 12), ("chain2", ["g", "ag"], 12), ("fork", ["g", "b", "a"], 3), ("chain3", ["b", "a", "g"], 4)]

DEEPER = [("chain2", ["abg", "abg"], 12), ("chain3", ["abg", "b", "g"], 12), ("chain3", ["g", "ab", "ag"], 12), ("fork", ["ab", "ag", "bg"], 12), ("late_fork", ["a", "b", "g", "a"], 12), ("crossed", ["g", "a", "b", "ag"], 12)]


def second(c):
    shape, pat, m = c.choose("skeleton", SECOND + (DEEPER if c.thorough else []))
    r = c.choose("codes", list(range(12 if c.thorough else m)))
    parents = SHAPES[shape]
    n = len(parents)
    codes = [CODES[(5 * i + r) % 12] for i in range(n)]
    return parents, codes, joints(c, n, pat), pat, [c.vec("t%d" % i, 3) for i in range(n)]


@harness("K01", "inverse_kinematics.api.compute_objective compute_gradient compute_jacobian", "one to three bones, single chain or fork, up to four arbitrary angles, bone vectors, tools and goals arbitrary", t_prove=120, time=600)
def gradient(c):
    api = c.mod(A)
    parents, codes, ang, pat, t = second(c)
    s, chains = posed(c, api, parents, codes, ang, t)
    n = len(parents)
    before = snapshot(c, s)
    J = api.compute_jacobian(chains, s)
    J0 = copy_of(c, J)
    g = api.compute_gradient(chains, s, J)
    unchanged(c, s, before)
    c.eq("jacobian_kept", J, J0)
    f = objective(c, parents, codes, t, chains)
    flat = [a for row in ang for a in row]
    c.eq("objective", api.compute_objective(chains, s), f(flat))
    free = [i for i in range(3 * n) if "abg"[i % 3] in pat[i // 3]]

    def along(xs):
        full = list(flat)
        for i, x in zip(free, xs):
            full[i] = x
        return f(full)
    _, d = c.deriv(along, [flat[i] for i in free])
    for k, i in enumerate(free):
        c.eq("gradient%d" % i, g[i], d[k])


@harness("K01", "inverse_kinematics.api.compute_hessian compute_jacobian", "the skeletons of gradient; second derivatives by every pair of the arbitrary angles", t_prove=120, time=600, cost=3)
def hessian(c):
    api = c.mod(A)
    parents, codes, ang, pat, t = second(c)
    s, chains = posed(c, api, parents, codes, ang, t)
    n = len(parents)
    before = snapshot(c, s)
    J = api.compute_jacobian(chains, s)
    J0 = copy_of(c, J)
    H = api.compute_hessian(chains, s, J)
    unchanged(c, s, before)
    c.eq("jacobian_kept", J, J0)
    c.prove("shape", H.shape == (3 * n, 3 * n))
    # the gradient is proved to be the objective's derivative in the harness gradient, so its derivative is the Hessian
    flat = [a for row in ang for a in row]
    free = [i for i in range(3 * n) if "abg"[i % 3] in pat[i // 3]]

    def grad(xs):
        full = list(flat)
        for i, x in zip(free, xs):
            full[i] = x
        api.set_joint_angles(s, c.array(full))
        api.update_skeleton(s)
        g = api.compute_gradient(chains, s, api.compute_jacobian(chains, s))
        return c.array([g[i] for i in range(3 * n)])
    _, d = c.deriv(grad, [flat[i] for i in free])
    for k, j in enumerate(free):
        for i in range(3 * n):
            c.eq("hessian%d.%d" % (i, j), H[i, j], d[k][i])
            c.eq("hessian%d.%d" % (j, i), H[j, i], d[k][i])


def simple(c):
    """a skeleton of one or two bones with one arbitrary angle each"""
    shape, pat = c.choose("skeleton", [("single", ["ab"]), ("chain2", ["g", "b"]), ("fork", ["b", "", "a"])])
    parents = SHAPES[shape]
    n = len(parents)
    r = c.choose("codes", [0, 4, 7])
    codes = [CODES[(5 * i + r) % 12] for i in range(n)]
    ang = joints(c, n, pat)
    t = [c.vec("t%d" % i, 3) for i in range(n)]
    return parents, codes, ang, t


@harness("K01", "inverse_kinematics.api.compute_finite_difference_gradient", "skeletons with two arbitrary angles, every step size up to 1", t_prove=120, time=600, tol=1e-5)
def difference_gradient(c):
    api = c.mod(A)
    parents, codes, ang, t = simple(c)
    h = c.angle("h", 0.01, 1)
    s, chains = posed(c, api, parents, codes, ang, t)
    before = snapshot(c, s)
    g = api.compute_finite_difference_gradient(chains, s, h)
    unchanged(c, s, before)
    f = objective(c, parents, codes, t, chains)
    flat = [a for row in ang for a in row]
    for i in range(len(flat)):
        plus, minus = list(flat), list(flat)
        plus[i], minus[i] = flat[i] + h, flat[i] - h
        c.eq("central%d" % i, g[i] * 2 * h, f(plus) - f(minus))


@harness("K01", "inverse_kinematics.api.compute_finite_difference_hessian", "skeletons with two arbitrary angles, every step size up to 1", t_prove=120, time=600, tol=1e-4, cost=9)
def difference_hessian(c):
    api = c.mod(A)
    parents, codes, ang, t = simple(c)
    h = c.angle("h", 0.1, 1)
    s, chains = posed(c, api, parents, codes, ang, t)
    before = snapshot(c, s)
    H = api.compute_finite_difference_hessian(chains, s, h)
    unchanged(c, s, before)
    f = objective(c, parents, codes, t, chains)
    flat = [a for row in ang for a in row]

    def at(*moves):
        full = list(flat)
        for i, x in moves:
            full[i] = full[i] + x
        return f(full)
    for i in range(len(flat)):
        c.eq("second%d" % i, H[i, i] * h * h, at((i, h)) - 2 * at() + at((i, -h)))
        for j in range(len(flat)):
            if j != i:
                c.eq("mixed%d.%d" % (i, j), H[i, j] * 4 * h * h, at((i, h), (j, h)) - at((i, h), (j, -h)) - at((i, -h), (j, h)) + at((i, -h), (j, -h)))
