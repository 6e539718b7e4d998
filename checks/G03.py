"""Bounding volume hierarchies: structure, enclosure, refitting and exact tandem traversal."""
from symx.harness import harness
from common import *
BM = "rainbow.geometry.kdop_bvh"
KM = "rainbow.geometry.kdop"


def elements(c, name, M, axis, spread=True):
    """M two-vertex elements, element k spans [x_k, x_k + w_k] along the axis and [0, 0] along the others"""
    X, T = [], []
    spans = []
    for k in range(M):
        x = c.real("%s%d" % (name, k))
        w = c.real("%sw%d" % (name, k), 0)
        for v in (x, x + w):
            X.append([v if a == axis else 0 for a in range(3)])
        T.append([2 * k, 2 * k + 1])
        spans.append((x, x + w))
    return c.array(X), c.iarray(T), spans


def leaves(B, tree):
    return [n.start for s in tree.chunks for n in s.nodes if B._is_leaf(n)]


def depth_ok(B, sub):
    """every defined node is reached exactly once from the root of the chunk"""
    seen = []
    stack = [0]
    while stack:
        i = stack.pop()
        seen.append(i)
        n = sub.nodes[i]
        if not B._is_leaf(n):
            stack += [n.start, n.end]
    used = [i for i, n in enumerate(sub.nodes) if not B._is_undefined(n)]
    return sorted(seen) == sorted(used)


def slab_of(c, node, K):
    return [(node.volume.slabs[k].lower, node.volume.slabs[k].upper) for k in range(K)]


def meets(c, a, b, e):
    return c.all(a[0] - e <= b[1] + e, b[0] - e <= a[1] + e)


@harness("G03", "kdop_bvh.make_bvh kdop_bvh._make_sub_tree", "1..12 elements, chunk sizes 1,3,5,7,15 (every combination)", no_validate=True, minmax="define")
def each_element_in_one_leaf(c):
    B = c.mod(BM)
    M = c.choose("elements", list(range(1, 13)))
    N = c.choose("chunk", [1, 3, 5, 7, 15])
    X, T, spans = elements(c, "x", M, 0)
    tree = B.make_bvh(X, T, 3, N)
    c.prove("each_once", sorted(leaves(B, tree)) == list(range(M)))
    c.prove("tree_shaped", all(depth_ok(B, s) for s in tree.chunks))
    c.prove("chunk_capacity", all(len(s.nodes) == N for s in tree.chunks))


@harness("G03", "kdop_bvh.make_bvh kdop_bvh.refit_bvh kdop_bvh._refit_sub_tree", "1..5 elements of 2 vertices with arbitrary coordinates, chunks 1,3,7, K=3,4, every envelope; and after every motion", minmax="define", time=400)
def nodes_enclose_after_build_and_refit(c):
    B = c.mod(BM)
    M = c.choose("elements", [1, 2, 3, 5])
    N = c.choose("chunk", [1, 3, 7])
    K = c.choose("K", [3, 4])
    X = c.mat("v", M + 1, 3)
    T = c.iarray([[k, k + 1] for k in range(M)])
    e = c.real("e", 0)
    moved = c.choose("moved", [False, True])
    tree = B.make_bvh(X, T, K, N, e)
    if moved:
        X = c.mat("y", M + 1, 3)
        e = c.real("f", 0)
        B.refit_bvh(X, T, tree, K, e)
    dirs = [(1, 0, 0), (0, 1, 0), (0, 0, 1)] if K == 3 else [(1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1)]
    slack = 0 if c.sym else 1e-9

    def contains(name, vol, k, lo, hi):
        c.prove(name + "_low", vol.slabs[k].lower <= lo + slack)
        c.prove(name + "_high", vol.slabs[k].upper >= hi - slack)
    for s in tree.chunks:
        for i, n in enumerate(s.nodes):
            if B._is_undefined(n):
                continue
            for k, d in enumerate(dirs):
                if B._is_leaf(n):
                    for v in T[n.start]:
                        pr = sum(d[a] * X[int(v)][a] for a in range(3))
                        contains("leaf_covers_its_element", n.volume, k, pr - e, pr + e)
                else:
                    for m in (s.nodes[n.start], s.nodes[n.end]):
                        contains("node_covers_its_children", n.volume, k, m.volume.slabs[k].lower, m.volume.slabs[k].upper)
    # every chunk hangs below the root volume
    for s in tree.chunks:
        for k in range(K):
            contains("root_covers_chunks", tree.root, k, s.nodes[0].volume.slabs[k].lower, s.nodes[0].volume.slabs[k].upper)


SIZES = [(1, 1), (2, 1), (1, 3), (2, 2), (3, 1)]


def _pairs(c, sizes, K, chunks, moved, axis_mode):
    B = c.mod(BM)
    MA, MB = c.choose("sizes", sizes)
    N = c.choose("chunk", chunks)
    axis = c.choose("axis", [0, 1, 2]) if axis_mode else 0
    XA, TA, SA = elements(c, "a", MA, axis)
    XB, TB, SB = elements(c, "b", MB, axis)
    e = c.real("e", 0)
    tA, tB = B.make_bvh(XA, TA, K, N, e), B.make_bvh(XB, TB, K, N, e)
    if moved:
        XA, TA, SA = elements(c, "p", MA, axis)
        B.refit_bvh(XA, TA, tA, K, e)
    got = B.traversal(tA, tB)
    c.prove("no_pair_twice", len(set(got)) == len(got))
    edge = []
    conds = []
    for i in range(MA):
        for j in range(MB):
            w = meets(c, SA[i], SB[j], e)
            conds.append(w if (i, j) in got else c.no(w))
            edge += [c.no(SA[i][0] - e == SB[j][1] + e), c.no(SB[j][0] - e == SA[i][1] + e)]
    c.prove("reported_iff_volumes_meet", c.all(*conds), margin=c.all(*edge))
    c.prove("only_elements", all(0 <= i < MA and 0 <= j < MB for i, j in got))


@harness("G03", "kdop_bvh.traversal kdop_bvh._iterative_sub_tree_traversal kdop_bvh.make_bvh kdop_bvh.refit_bvh",
         "intervals along each axis; sizes (1,1),(2,1),(1,3),(2,2),(3,1); chunks 1,3,7; every envelope", minmax="define", time=400, max_paths=20000)
def traversal_is_exact(c):
    _pairs(c, SIZES, 3, [1, 3, 7], False, True)


@harness("G03", "kdop_bvh.traversal kdop_bvh._iterative_sub_tree_traversal", "K=4; sizes (2,1),(2,2) (thorough also (3,2),(2,3)); chunk 3,7", minmax="define", time=600, max_paths=40000)
def traversal_is_exact_four_slabs(c):
    _pairs(c, [(2, 1), (2, 2)] + ([(3, 2), (2, 3)] if c.thorough else []), 4, [3, 7], False, False)


@harness("G03", "kdop_bvh.traversal kdop_bvh._iterative_sub_tree_traversal kdop_bvh.make_bvh", "two rows of fixed intervals, one row slid along the axis to every position; sizes (3,4),(4,3),(5,2),(2,5),(5,6), chunks 3,7,15 on either side; every pair of rows meets at some position", minmax="define", time=600, max_paths=40000)
def traversal_of_deeper_trees(c):
    B = c.mod(BM)
    MA, MB = c.choose("sizes", [(3, 4), (4, 3), (5, 2), (2, 5)] + ([(5, 6), (7, 4)] if c.thorough else []))
    NA, NB = c.choose("chunk", [(7, 7), (3, 15), (15, 7)])
    axis = c.choose("axis", [0, 1, 2])
    s = c.real("shift", -200, 200)

    def row(M, step, width, shift):
        X, T, S = [], [], []
        for k in range(M):
            lo, hi = k * step + shift, k * step + width + shift
            for v in (lo, hi):
                X.append([v if a == axis else 0 for a in range(3)])
            T.append([2 * k, 2 * k + 1])
            S.append((lo, hi))
        return c.array(X), c.iarray(T), S
    XA, TA, SA = row(MA, 10, 4, s)
    XB, TB, SB = row(MB, 13, 6, 0)
    tA, tB = B.make_bvh(XA, TA, 3, NA, 0.5), B.make_bvh(XB, TB, 3, NB, 0.5)
    got = B.traversal(tA, tB)
    c.prove("no_pair_twice", len(set(got)) == len(got))
    edge, conds = [], []
    for i in range(MA):
        for j in range(MB):
            w = meets(c, SA[i], SB[j], 0.5)
            conds.append(w if (i, j) in got else c.no(w))
            edge += [c.no(SA[i][0] - 0.5 == SB[j][1] + 0.5), c.no(SB[j][0] - 0.5 == SA[i][1] + 0.5)]
    c.prove("reported_iff_volumes_meet", c.all(*conds), margin=c.all(*edge))
    c.prove("only_elements", all(0 <= i < MA and 0 <= j < MB for i, j in got))


@harness("G03", "kdop_bvh.traversal kdop_bvh.refit_bvh", "after moving the first object anywhere; sizes (2,2),(4,1),(1,4)", minmax="define", time=600, max_paths=40000)
def traversal_after_motion(c):
    _pairs(c, [(2, 2), (4, 1), (1, 4)], 3, [3, 7], True, False)


@harness("G03", "kdop_bvh.traversal", "boxes in two axes at once; sizes (2,1),(1,2),(2,2)", minmax="define", time=600, max_paths=40000)
def traversal_of_boxes(c):
    B = c.mod(BM)
    MA, MB = c.choose("sizes", [(2, 1), (1, 2)] + ([(2, 2)] if c.thorough else []))
    ax = c.choose("axes", [(0, 1), (1, 2), (2, 0)])

    def obj(name, M):
        X, T, S = [], [], []
        for k in range(M):
            lo = [c.real("%s%d%d" % (name, k, a)) for a in range(2)]
            hi = [lo[a] + c.real("%sw%d%d" % (name, k, a), 0) for a in range(2)]
            for p in (lo, hi):
                v = [0, 0, 0]
                v[ax[0]], v[ax[1]] = p
                X.append(v)
            T.append([2 * k, 2 * k + 1])
            S.append([(lo[a], hi[a]) for a in range(2)])
        return c.array(X), c.iarray(T), S
    XA, TA, SA = obj("a", MA)
    XB, TB, SB = obj("b", MB)
    got = B.traversal(B.make_bvh(XA, TA, 3, 3), B.make_bvh(XB, TB, 3, 3))
    c.prove("no_pair_twice", len(set(got)) == len(got))
    conds, edge = [], []
    for i in range(MA):
        for j in range(MB):
            w = c.all(*[meets(c, SA[i][a], SB[j][a], 0) for a in range(2)])
            conds.append(w if (i, j) in got else c.no(w))
            for a in range(2):
                edge += [c.no(SA[i][a][0] == SB[j][a][1]), c.no(SB[j][a][0] == SA[i][a][1])]
    c.prove("reported_iff_volumes_meet", c.all(*conds), margin=c.all(*edge))
