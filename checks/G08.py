"""Tetrahedral volume meshes."""
from symx.harness import harness
from common import *
VM = "rainbow.geometry.volume_mesh"
GM = "rainbow.geometry.grid3"


def tets(T):
    return [tuple(int(v) for v in t) for t in T]


def vol6(c, V, t):
    a, b, d, e = (V[i] for i in t)
    return det3([b - a, d - a, e - a])


def faces(t):
    """outward faces of a positively oriented tetrahedron (i, j, k, m): m is on the inner side of (i, k, j)..."""
    i, j, k, m = t
    return [(j, k, m), (i, m, k), (i, j, m), (i, k, j)]


def rot(f):
    n = f.index(min(f))
    return f[n:] + f[:n]


def conforming(c, name, T):
    """every face is used once, or twice with opposite orientation; returns the boundary faces"""
    F = {}
    for t in T:
        for f in faces(t):
            F[rot(f)] = F.get(rot(f), 0) + 1
    c.prove(name + ".faces_once_per_side", all(n == 1 for n in F.values()))
    return [f for f in F if rot((f[0], f[2], f[1])) not in F]


SIZES = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3)]
BIG = SIZES + [(4, 3, 2), (3, 4, 3), (4, 4, 4)]


@harness("G08", "volume_mesh.create_beam volume_mesh.create_tetrahedron_array_from_cube_mesh", "2..3 nodes per axis (thorough 2..4), every width, height and depth > 0", time=300)
def beam(c):
    M = c.mod(VM)
    I, J, K = c.choose("nodes", BIG if c.thorough else SIZES)
    d = [c.real(n, 0.01, 100) for n in ("width", "height", "depth")]
    V, T = M.create_beam(I, J, K, *d)
    T = tets(T)
    c.prove("five_per_cell", len(T) == 5 * (I - 1) * (J - 1) * (K - 1) and len(V) == I * J * K)
    total = 0
    for n, t in enumerate(T):
        v = vol6(c, V, t)
        c.prove("positive%d" % n, v > 0)
        total = total + v
    c.eq("volume", total, 6 * d[0] * d[1] * d[2])
    for i, v in enumerate(V):
        for k in range(3):
            c.le("inside%d_%d" % (i, k), v[k], d[k] / 2)
            c.ge("inside_%d_%d" % (i, k), v[k], -d[k] / 2)
    c.prove("all_vertices_used", sorted(set(v for t in T for v in t)) == list(range(len(V))))
    for f in conforming(c, "conforming", T):
        on = []
        for k in range(3):
            for s in (1, -1):
                on.append(c.all(*[near(c, V[v][k], s * d[k] / 2) for v in f]))
        c.prove("boundary_face_on_the_box", c.any(*on))


def near(c, a, b, e=1e-9):
    return a == b if c.sym else abs(a - b) <= e * (1 + abs(b))


@harness("G08", "volume_mesh.from_grid3d grid3.get_nodes_array", "2..3 nodes per axis, every corner, extent and nodal values")
def grid_to_mesh(c):
    M, G = c.mod(VM), c.mod(GM)
    I, J, K = c.choose("nodes", SIZES[:4])
    lo = c.vec("lo")
    ext = [c.pos("e%d" % k) for k in range(3)]
    g = G.Grid(lo, c.array([lo[k] + ext[k] for k in range(3)]), I, J, K)
    vals = [c.real("d%d" % i) for i in range(I * J * K)]
    g.values = c.array(vals)
    V, T, A = M.from_grid3d(g)
    c.prove("sizes", len(V) == I * J * K and len(A) == len(V))
    for k in range(K):
        for j in range(J):
            for i in range(I):
                x = g.get_node_coord(i, j, k)
                n = [m for m in range(len(V)) if bool(c.all(*[near(c, V[m][a], x[a]) for a in range(3)]))]
                c.prove("node_once%d%d%d" % (i, j, k), len(n) == 1)
                c.eq("value%d%d%d" % (i, j, k), A[n[0]], g.get_node_value(i, j, k))
    total = 0
    for n, t in enumerate(tets(T)):
        v = vol6(c, V, t)
        c.prove("positive%d" % n, v > 0)
        total = total + v
    c.eq("volume", total, 6 * ext[0] * ext[1] * ext[2])
    V[0][0] = 77
    A[0] = 77
    c.prove("grid_not_aliased", near(c, g.values[0], vals[0]))


@harness("G08", "volume_mesh.compute_volumes", "every set of vertices, tetrahedra in every orientation")
def volumes(c):
    M = c.mod(VM)
    V = c.mat("v", 5, 3)
    T = c.iarray([[0, 1, 2, 3], [1, 0, 2, 4], [4, 3, 2, 1]])
    w = M.compute_volumes(V, T)
    for e, t in enumerate(tets(T)):
        c.eq("volume%d" % e, 6 * w[e], vol6(c, V, t))


def _pos_tet(c):
    x, A, B, D = c.vec("x"), c.vec("a"), c.vec("b"), c.vec("d")
    v = det3([A, B, D])
    c.assume(v >= 0.01)
    return [x, x + A, x + B, x + D], v


@harness("G08", "volume_mesh.to_triangles volume_mesh.to_tetrahedrons", "every tetrahedron of positive volume, every scale factor > 0, arbitrary local vertex numbering")
def explode(c):
    M = c.mod(VM)
    P, v = _pos_tet(c)
    perm = c.choose("numbering", [(0, 1, 2, 3), (1, 2, 0, 3), (3, 2, 1, 0)])
    V = c.array([[y for y in P[perm.index(i)]] for i in range(4)])
    T = c.iarray([list(perm)])
    F = [tuple(int(y) for y in f) for f in M.to_triangles(T)]
    c.prove("surface_of_the_element", sorted(map(rot, F)) == sorted(map(rot, faces(perm))))
    s = c.real("s", 0.01, 10)
    two = c.choose("elements", [1, 2])
    nodes = [P[perm.index(i)] for i in range(4)]
    Tl = [perm]
    if two == 2:
        nodes.append(c.vec("p4"))
        t2 = (perm[1], perm[2], perm[3], 4)
        c.assume(vol6(c, nodes, t2) >= 0.01)
        Tl.append(t2)
    V, T = c.array([[y for y in p] for p in nodes]), c.iarray([list(t) for t in Tl])
    W, F2 = M.to_tetrahedrons(V, T, s)
    c.prove("counts", len(W) == 4 * two and len(F2) == 4 * two)
    for e, t in enumerate(Tl):
        corner = [nodes[j] for j in t]
        ctr = [sum(p[k] for p in corner) / 4 for k in range(3)]
        for i in range(4):
            for k in range(3):
                c.eq("scaled%d_%d_%d" % (e, i, k), W[4 * e + i][k] - ctr[k], s * (corner[i][k] - ctr[k]))
    got = sorted(rot(tuple(int(y) for y in f)) for f in F2)
    # faces(t) is oriented outward for positive volume, scaling by s > 0 keeps that
    c.prove("closed_and_outward", got == sorted(rot(f) for e in range(two) for f in faces(tuple(4 * e + i for i in range(4)))))
    for n, f in enumerate(F2[:4]):
        a, b, d = (W[int(i)] for i in f)
        c.prove("outward%d" % n, dot(cross(c, b - a, d - a), a - c.array([sum(P[i][k] for i in range(4)) / 4 for k in range(3)])) > 0)


@harness("G08", "volume_mesh.create_loop_subdivision", "every tetrahedron and every pair of tetrahedra sharing a face, positive volumes, several local numberings", time=300)
def subdivision(c):
    M = c.mod(VM)
    P, v = _pos_tet(c)
    two = c.choose("elements", [1, 2])
    perm = c.choose("numbering", [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (1, 0, 3, 2)])
    Tl = [perm]
    if two == 2:
        P = P + [c.vec("p4")]
        t2 = (1, 2, 3, 4)                # shares face (1, 2, 3)
        c.assume(vol6(c, P, t2) >= 0.01)
        Tl.append(t2)
    V = c.array([[y for y in p] for p in P])
    n0 = len(P)
    keep = copy_of(c, V)
    T0 = c.iarray([list(t) for t in Tl])
    W, T = M.create_loop_subdivision(V, T0)
    T = tets(T)
    c.prove("eight_children", len(T) == 8 * two)
    edges = set(tuple(sorted((t[a], t[b]))) for t in Tl for a in range(4) for b in range(a))
    c.prove("one_vertex_per_edge", len(W) == n0 + len(edges))
    for i in range(n0):
        c.eq("old_vertex%d" % i, W[i], keep[i])
    for a, b in edges:
        c.prove("midpoint%d%d" % (a, b), c.any(*[c.all(*[near(c, W[m][k], (keep[a][k] + keep[b][k]) / 2) for k in range(3)]) for m in range(n0, len(W))]))
    total = 0
    for n, t in enumerate(T):
        w = vol6(c, W, t)
        c.prove("positive%d" % n, w > 0)
        total = total + w
    c.eq("volume_preserved", total, v + (vol6(c, keep, Tl[1]) if two == 2 else 0))
    B = conforming(c, "conforming", T)
    c.prove("boundary_faces", len(B) == (16 if two == 1 else 24))
    c.eq("input_kept", V, keep)
    c.prove("elements_kept", tets(T0) == Tl)


# ---- connectivity over arbitrary vertex labels -------------------------------------------------
PATTERNS = {"one": [(0, 1, 2, 3)],
            "pair": [(0, 1, 2, 3), (1, 2, 3, 4)],
            "pair_other": [(1, 2, 3, 4), (1, 2, 0, 3)],
            "edge_only": [(0, 1, 2, 3), (0, 1, 4, 5)],
            "apart": [(0, 1, 2, 3), (4, 5, 6, 7)],
            "three": [(0, 1, 2, 3), (1, 2, 3, 4), (0, 1, 3, 5)]}
QUICK = ["one", "pair", "pair_other", "edge_only"]




@harness("G08", "volume_mesh.compute_neighbors volume_mesh.compute_surface", "six connectivity patterns of 1..3 tetrahedra (thorough: all six) with every labelling of the vertices", time=400, max_paths=60000, no_validate=True, symints=True)
def neighbours(c):
    M = c.mod(VM)
    names = list(PATTERNS) if c.thorough else QUICK
    nm = c.choose("pattern", names)
    pat = PATTERNS[nm]
    n = 1 + max(v for t in pat for v in t)
    lab = [c.integer("l%d" % i, 0, 10 ** 6) for i in range(n)]
    if c.sym:
        for i in range(n):
            for j in range(i):
                c.assume(c.any(lab[i] < lab[j], lab[j] < lab[i]))
    elif len(set(int(x) for x in lab)) < n:
        return
    import numpy as np
    T = np.array([[lab[v] for v in t] for t in pat], dtype=object if c.sym else int)
    N = M.compute_neighbors(T)
    opp = {}
    for e, t in enumerate(pat):
        for a in range(4):
            opp.setdefault(frozenset(t[b] for b in range(4) if b != a), []).append((e, a))
    want = {}
    for f, us in opp.items():
        for e, a in us:
            o = [x for x in us if x != (e, a)]
            want[e, a] = o[0][0] if o else -1
    c.prove("neighbour_across_each_face", all(int(N[e, a]) == want[e, a] for e in range(len(pat)) for a in range(4)))
    S, O = M.compute_surface(T, N)
    c.prove("one_triangle_per_open_face", len(S) == sum(1 for v in want.values() if v < 0) and len(O) == len(S))
    for s in range(len(S)):
        e, a = int(O[s, 0]), int(O[s, 1])
        c.prove("owner%d" % s, want[e, a] == -1)
        g = faces(pat[e])[a]                        # outward face opposite local vertex a
        r = [[lab[g[(b + q) % 3]] for b in range(3)] for q in range(3)]
        c.prove("outward_face%d" % s, c.any(*[c.all(*[S[s][b] == x[b] for b in range(3)]) for x in r]))
    c.prove("each_open_face_once", len(set((int(O[s, 0]), int(O[s, 1])) for s in range(len(S)))) == len(S))


@harness("G08", "volume_mesh.VertexTetrahedronCirculator", "six connectivity patterns of 1..3 tetrahedra with every vertex", no_validate=True)
def circulator(c):
    M = c.mod(VM)
    nm = c.choose("pattern", list(PATTERNS))
    pat = PATTERNS[nm]
    n = 1 + max(v for t in pat for v in t)
    sh = c.choose("relabel", [tuple(range(n)), tuple(range(n - 1, -1, -1)), tuple((3 * i + 1) % n if n % 3 else (i + 2) % n for i in range(n))])
    T = c.iarray([[sh[v] for v in t] for t in pat])
    V = c.mat("v", n, 3)
    C = M.VertexTetrahedronCirculator(V, T)
    for v in range(n):
        got = sorted(int(e) for e in C.tetrahedra(v))
        c.prove("incident%d" % v, got == [e for e, t in enumerate(tets(T)) if v in t])
