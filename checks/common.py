"""Reference definitions shared by the harnesses (independent of the code under test)."""
QM = "rainbow.math.quaternion"
M3M = "rainbow.math.matrix3"
V3M = "rainbow.math.vector3"


def R_of(c, q):
    """rotation matrix of a unit quaternion (s, x, y, z)"""
    s, x, y, z = q
    return c.array([[1 - 2 * (y * y + z * z), 2 * (x * y - s * z), 2 * (x * z + s * y)],
                    [2 * (x * y + s * z), 1 - 2 * (x * x + z * z), 2 * (y * z - s * x)],
                    [2 * (x * z - s * y), 2 * (y * z + s * x), 1 - 2 * (x * x + y * y)]])


def dot(a, b):
    s = a[0] * b[0]
    for i in range(1, len(a)):
        s = s + a[i] * b[i]
    return s


def cross(c, a, b):
    return c.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def mv(c, A, x):
    return c.array([dot(r, x) for r in A])


def mm(c, A, B):
    n, m, p = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(p):
            s = A[i][0] * B[0][j]
            for k in range(1, m):
                s = s + A[i][k] * B[k][j]
            row.append(s)
        out.append(row)
    return c.array(out)


def tr(c, A):
    return c.array([[A[i][j] for i in range(len(A))] for j in range(len(A[0]))])


def det3(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1])
            - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


def eye(c, n=3):
    return c.array([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def qmul(c, a, b):
    """Hamilton product"""
    return c.array([a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
                    a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                    a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
                    a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]])


def rx(c, t):
    co, si = c.np.cos(t), c.np.sin(t)
    return c.array([[1, 0, 0], [0, co, -si], [0, si, co]])


def ry(c, t):
    co, si = c.np.cos(t), c.np.sin(t)
    return c.array([[co, 0, si], [0, 1, 0], [-si, 0, co]])


def rz(c, t):
    co, si = c.np.cos(t), c.np.sin(t)
    return c.array([[co, -si, 0], [si, co, 0], [0, 0, 1]])


def rodrigues(c, t, n):
    """rotation matrix by angle t about the unit vector n"""
    co, si = c.np.cos(t), c.np.sin(t)
    x, y, z = n
    C = 1 - co
    return c.array([[co + x * x * C, x * y * C - z * si, x * z * C + y * si],
                    [x * y * C + z * si, co + y * y * C, y * z * C - x * si],
                    [x * z * C - y * si, y * z * C + x * si, co + z * z * C]])


def same_rotation(c, name, p, q):
    """p and q are unit quaternions of the same rotation: p p^T == q q^T"""
    for i in range(4):
        for j in range(i, 4):
            c.eq("%s[%d%d]" % (name, i, j), p[i] * p[j], q[i] * q[j])


def copy_of(c, x):
    return c.array([v for v in x]) if getattr(x, "ndim", 1) == 1 else c.array([[v for v in r] for r in x])


# ---- contracts of library eigen solvers --------------------------------------------------------
def num_array(c, A):
    import numpy as np
    A = np.asarray(A, dtype=object)
    out = np.empty(A.shape)
    for i in np.ndindex(*A.shape):
        out[i] = c.ctx.num_eval(A[i])
    return out


def eig_free(c, names=("eig", "eigh"), axioms=True):
    """np.linalg.eig/eigh on a symmetric 3x3 argument: any numbers and vectors that satisfy its specification.
    Returns the list of (argument, values, vectors) of the calls seen."""
    calls = []
    if not c.sym:
        return calls
    import numpy as np

    def make(kind):
        def hook(A):
            A = np.asarray(A, dtype=object)
            n = A.shape[0]
            if A.shape != (3, 3):
                raise ValueError("unexpected shape %s" % (A.shape,))
            k = len(calls)
            W, V = (None, None)
            if c.numeric:
                W, V = getattr(np.linalg, kind)(num_array(c, A))
            w = c.array([c.fresh("w%d_%d" % (k, i), num=None if W is None else float(W[i])) for i in range(n)])
            v = c.array([[c.fresh("v%d_%d%d" % (k, i, j), num=None if V is None else float(V[i, j])) for j in range(n)] for i in range(n)])
            if axioms:
                for j in range(n):
                    for i in range(n):
                        c.axiom(dot(A[i], v[:, j]) == w[j] * v[i, j])
                        if i == j or kind == "eigh":
                            c.axiom(dot(v[:, i], v[:, j]) == (1 if i == j else 0))
                if kind == "eigh":
                    c.axiom(w[0] <= w[1])
                    c.axiom(w[1] <= w[2])
            calls.append((A, w, v))
            return w, v
        return hook
    for kind in names:
        c.stub(c.np.linalg, kind, make(kind))
    return calls


def eig_known(c, w, V, names=("eig", "eigh"), perms=None, more=()):
    """np.linalg.eig/eigh called on V diag(w) V^T (checked): returns the eigenpairs in any order, with any signs.
    more: the (w, V) of the further matrices of a stack (default: all alike)."""
    if not c.sym:
        return
    import numpy as np
    n = len(w)
    w0, V0 = w, V
    orders = perms or [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)]

    def make(kind):
        def hook(A):
            A = np.asarray(A, dtype=object)
            stack = A.ndim == 3
            As = A if stack else A[None]
            ws, vs = [], []
            for nth, B in enumerate(As):
                w, V = (more[nth - 1] if nth and more else (w0, V0))
                D = c.array([[w[i] if i == j else 0 for j in range(n)] for i in range(n)])
                c.eq("eigen_argument", B, mm(c, V, mm(c, D, tr(c, V))))
                if c.numeric:
                    W, U = getattr(np.linalg, kind)(num_array(c, B))
                    w1 = c.array([c.fresh("ew%d" % i, num=float(W[i])) for i in range(n)])
                    v1 = c.array([[c.fresh("ev%d%d" % (i, j), num=float(U[i, j])) for j in range(n)] for i in range(n)])
                else:
                    p = c.choose("eig_order", orders)
                    s = c.choose("eig_sign", [(1, 1, 1), (-1, 1, 1), (1, -1, -1)])
                    w1 = c.array([w[k] for k in p])
                    v1 = c.array([[V[i][k] * s[j] for j, k in enumerate(p)] for i in range(n)])
                    if kind == "eigh":
                        c.assume(c.all(w1[0] <= w1[1], w1[1] <= w1[2]))
                        c.check_feasible()
                ws.append(w1)
                vs.append(v1)
            return (c.array(ws), c.array(vs)) if stack else (ws[0], vs[0])
        return hook
    for kind in names:
        c.stub(c.np.linalg, kind, make(kind))


def linear_contract(c, names=("solve",), tests=()):
    """np.linalg.solve / lstsq on a regular square system: any x with A x = b.
    tests: vectors y (or functions of (A, b) giving such); the consequence y.(A x) = y.b is added in normal form."""
    seen = []
    if not c.sym:
        return seen
    import numpy as np

    def make(kind):
        def hook(A, b, rcond=None):
            A, b = np.asarray(A, dtype=object), np.asarray(b, dtype=object)
            X = None
            if c.numeric:
                nA, nb = num_array(c, A), num_array(c, b)
                X = np.linalg.lstsq(nA, nb, rcond=None)[0] if kind == "lstsq" else np.linalg.solve(nA, nb)
            x = np.empty(b.shape, dtype=object)
            for i in np.ndindex(*b.shape):
                x[i] = c.fresh("x%d_%s" % (len(seen), i), num=None if X is None else float(X[i]))
            x = c.array(x)
            B = b.reshape(b.shape[0], -1)
            Y = x.reshape(b.shape[0], -1)
            for j in range(B.shape[1]):
                for i in range(A.shape[0]):
                    c.axiom(dot(A[i], Y[:, j]) == B[i, j])
                for y in tests:
                    y = y(A, b) if callable(y) else y
                    s = 0
                    for k in range(A.shape[1]):
                        s = s + dot(y, A[:, k]) * Y[k, j]
                    c.axiom(s == dot(y, B[:, j]))
            seen.append((A, b, x))
            return (x, None, None, None) if kind == "lstsq" else x
        return hook
    for kind in names:
        c.stub(c.np.linalg, kind, make(kind))
    return seen


def solve_contract(c, tests=()):
    return linear_contract(c, ("solve",), tests)


def lstsq_contract(c, tests=()):
    return linear_contract(c, ("lstsq",), tests)
