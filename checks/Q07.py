"""Principal components."""
from symx.harness import harness
from common import *
FM = "rainbow.math.functions"


@harness("Q07", "functions.PCA functions.direction_of_most_variance", "every set of 4..6 points")
def eigenpairs_of_covariance(c):
    F = c.mod(FM)
    n = c.choose("points", [4, 5, 6])
    P = c.mat("p", n, 3)
    keep = copy_of(c, P)
    calls = eig_free(c)
    mean, values, vectors = F.PCA(P)
    mu = [sum(keep[i][k] for i in range(n)) / n for k in range(3)]
    c.eq("mean", mean, c.array(mu))
    C = [[sum((keep[i][a] - mu[a]) * (keep[i][b] - mu[b]) for i in range(n)) / (n - 1) for b in range(3)] for a in range(3)]
    C = c.array(C)
    for k in range(3):
        c.eq("eigenpair%d" % k, mv(c, C, vectors[:, k]), values[k] * vectors[:, k])
        c.eq("unit%d" % k, dot(vectors[:, k], vectors[:, k]), 1)
    c.eq("input_kept", P, keep)


@harness("Q07", "functions.direction_of_most_variance functions.PCA", "point sets whose covariance is any positive definite matrix (octahedra along any rotated axes), every competing direction", time=300)
def direction_is_maximal(c):
    F = c.mod(FM)
    q = c.quat("q")
    R = R_of(c, q)
    w = [c.pos("w%d" % i) for i in range(3)]
    m = c.vec("m")
    rows = []
    for i in range(3):
        for s in (1, -1):
            rows.append([m[k] + s * w[i] * R[k][i] for k in range(3)])
    P = c.array(rows)
    lam = [x * x * 2 / 5 for x in w]
    eig_known(c, lam, R)
    d = F.direction_of_most_variance(P)
    c.eq("unit", dot(d, d), 1)
    y = c.unit("y")

    def var(v):
        s = 0
        for i in range(3):
            e = dot(c.array([R[k][i] for k in range(3)]), v)
            s = s + lam[i] * e * e
        return s
    u = c.array([sum(R[k][i] * y[i] for i in range(3)) for k in range(3)])
    vd, vu = var(d), var(u)
    c.ge("at_least_any_other", vd, vu)


_FLAT = [0.11051765744959274, 1.054803980525958, 1.7566680757943463, 0.21143830517186046, -0.6171983411649902, 0.7073941593998976]


@harness("Q07", "functions.PCA functions.direction_of_most_variance", "every pair of points (flat point set); the validated run uses a pair whose covariance has a nearly repeated zero eigenvalue")
def flat_point_sets(c):
    F = c.mod(FM)
    P = c.array([[c.real("p%d%d" % (i, k), pick=[_FLAT[3 * i + k]]) for k in range(3)] for i in range(2)])
    eig_free(c)
    mean, values, vectors = F.PCA(P)
    c.prove("real_values", not c.np.iscomplexobj(values) and not c.np.iscomplexobj(vectors))
    for k in range(3):
        c.eq("unit%d" % k, dot(vectors[:, k], vectors[:, k]), 1)
