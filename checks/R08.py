"""Contact colouring of the parallel solvers."""
from symx.harness import harness
from common import *
BL = "rainbow.simulators.proximal_contact.blocking"
NOTE = """Symbolic body and node indices (integers). Rigid: up to 3 contacts (thorough 4) among 6 bodies. Deformable: two or three contacts whose
tetrahedra have two freely shared nodes each. Random colouring: every random choice, up to 2 rounds. networkx's greedy colouring runs as is on
the (by then decided) graph."""


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def rigid_contacts(c, K, N):
    cps, ids = [], []
    for k in range(K):
        a, b = c.integer("a%d" % k, 0, N - 1), c.integer("b%d" % k, 0, N - 1)
        c.assume(a != b)
        ids.append((a, b))
        cps.append(Obj(bodyA=Obj(idx=a, is_fixed=False, name="A%d" % k), bodyB=Obj(idx=b, is_fixed=False, name="B%d" % k)))
    return cps, ids


def share(c, p, q):
    return c.any(*[x == y for x in p for y in q])


def check_groups(c, groups, K, ids, blocks=True):
    seen = []
    for color, members in groups.items():
        ks = []
        for m in members:
            if blocks:
                start, end = m
                c.prove("block", end == start + 4 and start % 4 == 0)
                m = int(start) // 4
            ks.append(int(m))
        seen += ks
        for i in range(len(ks)):
            for j in range(i):
                c.prove("independent.%d.%d" % (ks[i], ks[j]), c.no(share(c, ids[ks[i]], ids[ks[j]])))
        c.prove("nonempty", len(ks) > 0)
    c.prove("every_contact_once", sorted(seen) == list(range(K)))


def rigid(c, K, N):
    B = c.mod(BL)
    cps, ids = rigid_contacts(c, K, N)
    G = B.build_contact_graph(cps) if c.choose("type", ["default", "given"]) == "default" else B.build_contact_graph(cps, "rigid_body")
    c.prove("nodes", sorted(int(v) for v in G.nodes()) == list(range(K)))
    for i in range(K):
        for j in range(i):
            c.prove("edge.%d.%d" % (i, j), c.iff(bool(G.has_edge(i, j)), share(c, ids[i], ids[j])))
    check_groups(c, B.greedy_graph_coloring(G), K, ids)


@harness("R08", "blocking.build_contact_graph blocking.greedy_graph_coloring", "one to three contacts among six bodies, every pattern", symints=True, symhash=True)
def rigid_bodies(c):
    rigid(c, c.choose("K", [1, 2, 3]), 6)


@harness("R08", "blocking.build_contact_graph blocking.greedy_graph_coloring", "four contacts among five bodies, every pattern", symints=True, symhash=True, thorough_only=True, max_paths=20000, time=600)
def rigid_bodies_four(c):
    rigid(c, 4, 5)


ARR = [[("A", "B"), ("A", "B")], [("A", "B"), ("B", "A")], [("A", "B"), ("A", "C")], [("B", "C"), ("A", "B")], [("A", "B"), ("C", "D")]]


@harness("R08", "blocking.build_contact_graph blocking.greedy_graph_coloring", "two contacts between up to four deformable bodies in five arrangements; two of the four nodes of every tetrahedron arbitrary (the first two, the last two, or one of each)", symints=True, symhash=True, max_paths=5000, time=500)
def deformable_bodies(c):
    B = c.mod(BL)
    arr = c.choose("bodies", ARR)
    names = sorted({n for p in arr for n in p})
    turned = c.choose("open nodes", ["first two", "last two", "last two of every second"])
    bodies = {}
    for s, n in enumerate(names):
        T = []
        for k in range(2):
            x, y = c.integer("%s%d.x" % (n, k), 0, 3), c.integer("%s%d.y" % (n, k), 0, 3)
            c.assume(x != y)
            own = [4 + 2 * k, 5 + 2 * k]
            T.append([x, y] + own if turned == "first two" or (turned != "last two" and k == 0) else own + [x, y])
        bodies[n] = Obj(T=c.iarray(T), offset=8 * s, idx=s, is_fixed=False, name=n)
    cps, ids = [], []
    for k, (a, b) in enumerate(arr):
        cps.append(Obj(bodyA=bodies[a], bodyB=bodies[b], idx_tetA=k, idx_tetB=1 - k))
        ids.append([bodies[a].T[k][i] + bodies[a].offset for i in range(4)] + [bodies[b].T[1 - k][i] + bodies[b].offset for i in range(4)])
    G = B.build_contact_graph(cps, "soft_body")
    c.prove("edge", c.iff(bool(G.has_edge(0, 1)), share(c, ids[0], ids[1])))
    check_groups(c, B.greedy_graph_coloring(G), 2, ids)


@harness("R08", "blocking.random_graph_coloring blocking.build_contact_graph", "two or three contacts among four bodies, every pattern, every random choice, up to two rounds", symints=True, symhash=True, max_paths=20000, time=500)
def random_colouring(c):
    B = c.mod(BL)
    K = c.choose("K", [1, 2, 3])
    cps, ids = rigid_contacts(c, K, 4)
    G = B.build_contact_graph(cps)
    n = [0]

    def pick(options, *a, **k):
        options = sorted(int(x) for x in options)
        n[0] += 1
        return options[c.choose("pick%d" % n[0], list(range(len(options)))) % len(options)]
    c.stub(c.np.random, "choice", pick, real=True)
    groups = B.random_graph_coloring(G, c.choose("rounds", [0, 1, 2]))
    check_groups(c, groups, K, ids, blocks=False)


@harness("R08", "blocking.build_contact_graph", "unknown kinds of body", no_validate=True)
def rejects(c):
    B = c.mod(BL)
    cps = [Obj(bodyA=Obj(idx=0), bodyB=Obj(idx=1))]
    try:
        B.build_contact_graph(cps, "fluid")
    except ValueError:
        c.prove("rejected", True)
    else:
        c.prove("rejected", False)
