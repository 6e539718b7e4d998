"""Spatial hashing: what shares a cell now is found, nothing older is; the overlap pairs of the broad phase."""
import types

from symx.harness import harness
from common import *
HM = "rainbow.geometry.spatial_hashing"
AM = "rainbow.geometry.aabb"
HALF = 0.5
CM = "rainbow.simulators.prox_soft_bodies.collision_detection"


class Offsets:
    """stand-in for the 1000^3 random offset table: any table is allowed, this one is a cheap fixed function"""

    def __init__(self, n):
        self.n = n

    def __getitem__(self, key):
        i, j, k = [int(x) for x in key]
        return (7 * i + 3 * j + k) % self.n


def grid_of(c, size):
    c.stub(c.np.random, "randint", lambda n, size=None: Offsets(int(n)), real=True)
    g = c.mod(HM).HashGird()
    g.set_hash_table_size(size)
    return g


@harness("G04", "spatial_hashing.HashGird.insert spatial_hashing.HashCell.add spatial_hashing.HashGird.get_prefect_hash_value",
         "every history of 3 inserts (thorough: 4) into cells -1..1 of each axis, nondecreasing time stamps in 0..3, tables of 1 and 1000 slots", max_paths=40000, time=500)
def insert_reports_exactly_the_present(c):
    g = grid_of(c, 1000)
    g.set_hash_table_size(c.choose("slots", [1, 1000]))
    n = 4 if c.thorough else 3
    axis = c.choose("axis", [0, 1, 2])
    hist = []
    t = c.integer("t0", 0, 1)
    for s in range(n):
        cell = [0, 0, 0]
        x = c.integer("x%d" % s, -1, 1)
        cell[axis] = int(x)
        if s:
            t = t + int(c.integer("dt%d" % s, 0, 1))
        tag = object()
        got = list(g.insert(cell[0], cell[1], cell[2], s, 10 + s, tag, t))
        ids = [o[0] for o in got]
        c.prove("payload_kept", all(o[1] == 10 + o[0] and o[2] is hist[o[0]][2] for o in got if o[0] < s))
        c.prove("each_once", len(set(ids)) == len(ids))
        for r, (cl, tr, _) in enumerate(hist):
            c.prove("only_current_objects", c.implies(r in ids, tr == t))
            c.prove("same_cell_found", c.implies(c.all(cl == cell, tr == t), r in ids))
        c.prove("not_itself", s not in ids and all(i < s for i in ids))
        hist.append((cell, t, tag))


def body(c, name, idx, n, axis, span, far):
    """n one-dimensional triangles along the axis, in units of the cell size"""
    X, S, spans = [], [], []
    for k in range(n):
        x = c.real("%s%d" % (name, k), -far, far)
        w = span[0] if len(span) == 1 else c.real("%sw%d" % (name, k), *span)
        for v in (x, x + w, x):
            p = [0, 0, 0]
            p[axis] = v
            X.append(p)
        S.append([3 * k, 3 * k + 1, 3 * k + 2])
        spans.append((x, x + w))
    return X, S, spans


class Body:
    def __init__(self, idx):
        self.idx = idx


def _pairs(c, sizes, axis, steps, slots, span, far):
    C = c.mod(CM)
    g = grid_of(c, slots)
    g.cell_size = c.pos("cell")
    e = types.SimpleNamespace(hash_grid=g, params=types.SimpleNamespace(time_stamp=0), bodies={})
    bs = [Body(i) for i in range(len(sizes))]
    for i, b in enumerate(bs):
        e.bodies["b%d" % i] = b
    for step in range(steps):
        spans = []
        for i, b in enumerate(bs):
            X, S, sp = body(c, "%s%d_" % ("abc"[i], step), i, sizes[i], axis, span, far)
            b.x = c.array(X) * g.cell_size
            b.surface = c.iarray(S)
            spans.append(sp)
        res, stats = C._spatial_hashing_narrow_phase(e, {}, False)
        e.params.time_stamp += 1
    found = {}
    for (p, q), rows in res.items():
        for r in rows:
            found.setdefault((p.idx, q.idx), []).append((int(r[0]), int(r[1])))
    conds, edge = [], []
    for i in range(len(bs)):
        for j in range(i):
            both = [(a, b) for a, b in found.get((i, j), [])] + [(b, a) for a, b in found.get((j, i), [])]
            c.prove("each_pair_once", len(set(both)) == len(both))
            for a in range(sizes[i]):
                for b in range(sizes[j]):
                    u, v = spans[i][a], spans[j][b]
                    w = c.all(u[0] <= v[1], v[0] <= u[1])
                    conds.append(w if (a, b) in both else c.no(w))
                    edge += [c.no(u[0] == v[1]), c.no(v[0] == u[1])]
    c.prove("reported_iff_boxes_meet", c.all(*conds), margin=c.all(*edge))


@harness("G04", "collision_detection._spatial_hashing_narrow_phase spatial_hashing.HashGird.insert aabb.AABB.is_overlap",
         "two bodies of one flat triangle starting within 1.5 cells of the origin and up to half a cell long (thorough: 2 cells, one cell long), along each axis, every cell size, 1000 or 2 hash slots", max_paths=20000, time=500)
def overlapping_pairs_of_two_bodies(c):
    axis, slots = c.choose("axis", [(0, 1000), (1, 2), (2, 1000)])
    if c.thorough:
        _pairs(c, [1, 1], axis, 1, slots, (0, 1), 2)
    else:
        _pairs(c, [1, 1], axis, 1, slots, (0, HALF), 1 + HALF)


@harness("G04", "collision_detection._spatial_hashing_narrow_phase spatial_hashing.HashGird.insert spatial_hashing.HashCell.add",
         "two time steps: every position within 0.9 (thorough: 1) cells of the origin in the first, every position in the second (triangles of length 1/4 cell)", max_paths=40000, time=600)
def pairs_after_moving(c):
    _pairs(c, [1, 1], 0, 2, 1000, (HALF / 2,), 0.9 if not c.thorough else 1)


@harness("G04", "collision_detection._spatial_hashing_narrow_phase", "three bodies of one flat triangle of length 1/2 cell within 1 cell of the origin", max_paths=60000, time=800, thorough_only=True)
def pairs_of_three_bodies(c):
    _pairs(c, [1, 1, 1], 1, 1, 1000, (HALF,), 1)


@harness("G04", "spatial_hashing.HashGird.compute_optial_cell_size", "one or two triangles, every shape")
def cell_size_is_scaled_mean_edge(c):
    G = c.mod(HM).HashGird
    n = c.choose("n", [1, 2])
    V = c.mat("v", 3 + n - 1, 3)
    T = [[0, 1, 2], [1, 2, 3]][:n]
    s = 0
    for t in T:
        for a, b in ((0, 1), (1, 2), (2, 0)):
            d = V[t[b]] - V[t[a]]
            s = s + c.np.sqrt(dot(d, d))
    c.eq("size", G.compute_optial_cell_size(V, T), s / (3 * n) * c.np.float64(2.2) if not c.sym else s / (3 * n) * 22 / 10)
