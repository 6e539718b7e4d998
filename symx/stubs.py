"""Stand-ins for third-party modules imported by rainbow."""
import types

import numpy as np

from . import sym as S
from . import shim
from .sym import Sym, Unsupported, ZERO, ONE
from .shim import NP, SArr, tosym, _mk, _full, lift


class Opaque(types.ModuleType):
    """Any attribute access yields an object that refuses to be called."""

    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = self.__name__ + "." + name

        class _X:
            def __call__(self, *a, **k):
                raise Unsupported("call of %s" % full)

            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                raise Unsupported("use of %s.%s" % (full, n))
        return _X()


class Matrix(shim.SArr):
    """the np.matrix returned by reductions of sparse matrices (two-dimensional)"""
    @property
    def A1(self):
        return _mk(np.asarray(self).reshape(-1).copy())

    @property
    def A(self):
        return _mk(np.asarray(self).copy())


class Sparse:
    """scipy.sparse matrices as dense object arrays (exact, explicit zeros kept implicit)."""
    _sparse = True
    __array_priority__ = 2000

    def __init__(self, A):
        self.A_ = np.asarray(A, dtype=object)

    @property
    def shape(self):
        return self.A_.shape

    @property
    def T(self):
        return Sparse(self.A_.T)

    def transpose(self, axes=None, copy=False):
        return self.T

    def toarray(self):
        return _mk(self.A_.copy())
    todense = toarray

    def tocsr(self, *a, **k):
        return self

    def tocsc(self, *a, **k):
        return self
    tobsr = tocoo = tolil = todok = tocsc

    def copy(self):
        return Sparse(self.A_.copy())

    def _o(self, o):
        return o.A_ if isinstance(o, Sparse) else np.asarray(o, dtype=object)

    def dot(self, o):
        if isinstance(o, Sparse):
            return Sparse(spdot(self.A_, o.A_))
        if isinstance(o, Sym) or np.isscalar(o):
            return Sparse(self.A_ * lift(o))
        return _mk(spdot(self.A_, np.asarray(o, dtype=object)))

    def __matmul__(self, o):
        return self.dot(o)

    def __mul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return _mk(spdot(np.asarray(o, dtype=object), self.A_))
        return Sparse(self.A_ * lift(o))

    def multiply(self, o):
        return Sparse(self.A_ * self._o(o))

    def __add__(self, o):
        if isinstance(o, Sparse):
            return Sparse(self.A_ + o.A_)
        return _mk(self.A_ + np.asarray(o, dtype=object))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Sparse):
            return Sparse(self.A_ - o.A_)
        return _mk(self.A_ - np.asarray(o, dtype=object))

    def __rsub__(self, o):
        return _mk(np.asarray(o, dtype=object) - self.A_)

    def __rmatmul__(self, o):
        return _mk(spdot(np.asarray(o, dtype=object), self.A_))

    def __abs__(self):
        return Sparse(np.asarray(NP.abs(_mk(self.A_)), dtype=object))

    def __pow__(self, k):
        r = self
        for _ in range(int(k) - 1):
            r = r.dot(self)
        return r if k else Sparse(np.asarray(NP.identity(self.shape[0])))

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous; use getnnz() or shape[0] or shape[1]")

    def power(self, k):
        return Sparse(self.A_ ** k)

    def trace(self, k=0):
        return NP.sum(_mk(np.asarray(self.diagonal(), dtype=object)))

    def mean(self, axis=None, **k):
        n = self.A_.size if axis is None else self.A_.shape[axis]
        return self.sum(axis) / n

    def getcol(self, i):
        return Sparse(self.A_[:, [i]])

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 else s
        return Sparse(self.A_.reshape(s))

    def astype(self, *a, **k):
        return self

    def conj(self, *a):
        return self
    conjugate = conj

    def sum_duplicates(self):
        pass
    sort_indices = eliminate_zeros = prune = sum_duplicates

    def sorted_indices(self):
        return self

    def setdiag(self, v, k=0):
        v = np.asarray(v, dtype=object)
        for i in range(min(self.shape[0] + min(k, 0), self.shape[1] - max(k, 0))):
            self.A_[i - min(k, 0), i + max(k, 0)] = v if v.ndim == 0 else v[i]

    def nonzero(self):
        ij = [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1]) if not shim._isz(self.A_[i, j])]
        return np.array([i for i, _ in ij], dtype=int), np.array([j for _, j in ij], dtype=int)

    @property
    def row(self):
        return self.nonzero()[0]

    @property
    def col(self):
        return self.nonzero()[1]
    indices = col

    @property
    def indptr(self):
        return np.concatenate([[0], np.cumsum([sum(1 for x in r if not shim._isz(x)) for r in self.A_])]).astype(int)

    def getnnz(self, axis=None):
        return self.nnz
    count_nonzero = getnnz
    ndim = 2
    dtype = np.dtype(np.float64)

    def __neg__(self):
        return Sparse(-self.A_)

    def __truediv__(self, o):
        return Sparse(self.A_ / lift(o))

    def __getitem__(self, k):
        r = self.A_[k]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r.reshape(1, -1)
            return Sparse(r)
        return r

    def __setitem__(self, k, v):
        self.A_[k] = v.A_ if isinstance(v, Sparse) else v

    def diagonal(self):
        return _mk(np.array([self.A_[i, i] for i in range(min(self.A_.shape))], dtype=object))

    def sum(self, axis=None, **k):
        if axis is None:
            return NP.sum(_mk(self.A_))
        return _mk(np.asarray(NP.sum(_mk(self.A_), axis=axis, keepdims=True), dtype=object)).view(Matrix)

    def getrow(self, i):
        return self[i]

    @property
    def nnz(self):
        return sum(1 for x in self.A_.reshape(-1) if not shim._isz(x))

    @property
    def data(self):
        return _mk(np.array([x for x in self.A_.reshape(-1) if not shim._isz(x)], dtype=object))

    def __array__(self, dtype=None):
        raise Unsupported("implicit densification of a sparse matrix")


def spdot(A, B):
    """matrix product skipping structural zeros"""
    if A.ndim == 1:
        return spdot(A.reshape(1, -1), B).reshape(-1)
    n, m = A.shape
    if A.shape[1] != B.shape[0]:
        raise ValueError("dimension mismatch")
    vec = B.ndim == 1
    if vec:
        B = B.reshape(-1, 1)
    p = B.shape[1]
    C = np.empty((n, p), dtype=object)
    C[...] = ZERO
    bz = [[None if shim._isz(B[k, j]) else B[k, j] for j in range(p)] for k in range(m)]
    for i in range(n):
        for k in range(m):
            a = A[i, k]
            if shim._isz(a):
                continue
            row = bz[k]
            for j in range(p):
                b = row[j]
                if b is not None:
                    C[i, j] = C[i, j] + a * b
    return C.reshape(-1) if vec else C


def _mat(x, shape=None, dtype=None, **k):
    if isinstance(x, Sparse):
        return x
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
        data, (r, c) = x
        data = list(np.asarray(data, dtype=object).reshape(-1))
        r, c = [int(i) for i in r], [int(i) for i in c]
        n = shape or (max(r) + 1, max(c) + 1)
        A = np.empty(n, dtype=object)
        A[...] = ZERO
        for v, i, j in zip(data, r, c):
            A[i, j] = A[i, j] + v
        return Sparse(A)
    if isinstance(x, tuple) and len(x) == 3:
        raise Unsupported("triplet constructor of an unknown format")
    if isinstance(x, tuple):
        A = np.empty(x, dtype=object)
        A[...] = ZERO
        return Sparse(A)
    a = np.asarray(x)
    if a.dtype != object:
        a = tosym(a)
    return Sparse(np.asarray(a).copy())


def _compressed(rows):
    def f(x, shape=None, dtype=None, **k):
        if isinstance(x, tuple) and len(x) == 3:
            data, indices, indptr = x
            data, n = list(np.asarray(data, dtype=object).reshape(-1)), len(indptr) - 1
            m = max([int(i) for i in indices], default=-1) + 1
            if shape is None:
                shape = (n, m) if rows else (m, n)
            A = np.empty(shape, dtype=object)
            A[...] = ZERO
            for i in range(n):
                for q in range(int(indptr[i]), int(indptr[i + 1])):
                    ij = (i, int(indices[q])) if rows else (int(indices[q]), i)
                    A[ij] = A[ij] + data[q]
            return Sparse(A)
        return _mat(x, shape, dtype, **k)
    return f


def _diags(d, offsets=0, shape=None, **k):
    if np.isscalar(offsets) or isinstance(offsets, Sym):
        if shape is None and offsets == 0 and not (len(d) == 1 and not np.isscalar(d[0]) and not isinstance(d[0], Sym)):
            return Sparse(np.asarray(NP.diag(tosym(np.asarray(d, dtype=object)))))
        d, offsets = ([d] if np.isscalar(d[0]) or isinstance(d[0], Sym) else d), [offsets]
    d = [np.asarray(x, dtype=object).reshape(-1) for x in d]
    if shape is None:
        n = len(d[0]) + abs(int(offsets[0]))
        shape = (n, n)
    A = np.empty(shape, dtype=object)
    A[...] = ZERO
    for x, o in zip(d, offsets):
        o = int(o)
        for q in range(min(shape[0] + min(o, 0), shape[1] - max(o, 0))):
            i, j = q - min(o, 0), q + max(o, 0)
            A[i, j] = A[i, j] + lift(x[0] if len(x) == 1 else x[q])
    return Sparse(A)


def _kron(a, b, format=None):
    a, b = [m.A_ if isinstance(m, Sparse) else np.asarray(tosym(np.asarray(m, dtype=object)), dtype=object) for m in (a, b)]
    return Sparse(np.block([[a[i, j] * b for j in range(a.shape[1])] for i in range(a.shape[0])]))


def _bmat(blocks, format=None, dtype=None):
    B = [[None if m is None else m.A_ if isinstance(m, Sparse) else np.atleast_2d(np.asarray(m, dtype=object)) for m in r] for r in blocks]
    hs = [next(m.shape[0] for m in r if m is not None) for r in B]
    ws = [next(r[j].shape[1] for r in B if r[j] is not None) for j in range(len(B[0]))]
    A = np.empty((sum(hs), sum(ws)), dtype=object)
    A[...] = ZERO
    for i, r in enumerate(B):
        for j, m in enumerate(r):
            if m is not None:
                A[sum(hs[:i]):sum(hs[:i + 1]), sum(ws[:j]):sum(ws[:j + 1])] = m
    return Sparse(A)


def _find(A):
    r, c = A.nonzero()
    return r, c, A.data


def _bsr(x, shape=None, blocksize=None, dtype=None, **k):
    """bsr_matrix((data, indices, indptr)) or dense"""
    if isinstance(x, tuple) and len(x) == 3:
        data, indices, indptr = x
        data = np.asarray(data, dtype=object)
        br, bc = data.shape[1:]
        nb = len(indptr) - 1
        if shape is None:
            shape = (nb * br, (max([int(i) for i in indices]) + 1) * bc)
        A = np.empty(shape, dtype=object)
        A[...] = ZERO
        for i in range(nb):
            for k2 in range(int(indptr[i]), int(indptr[i + 1])):
                j = int(indices[k2])
                A[i * br:(i + 1) * br, j * bc:(j + 1) * bc] = A[i * br:(i + 1) * br, j * bc:(j + 1) * bc] + data[k2]
        return Sparse(A)
    return _mat(x, shape)


def _block_diag(mats, format=None, dtype=None):
    ms = [m.A_ if isinstance(m, Sparse) else np.asarray(m, dtype=object) for m in mats]
    ms = [m.reshape(1, -1) if m.ndim == 1 else m for m in ms]
    n, m_ = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    A = np.empty((n, m_), dtype=object)
    A[...] = ZERO
    i = j = 0
    for m in ms:
        A[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return Sparse(A)


def _stack(axis):
    def f(mats, format=None, dtype=None):
        return Sparse(np.concatenate([m.A_ if isinstance(m, Sparse) else np.asarray(m, dtype=object) for m in mats], axis=axis))
    return f


def make_scipy():
    scipy = types.ModuleType("scipy")
    sp = types.ModuleType("scipy.sparse")
    for n in ("coo_matrix", "lil_matrix", "dok_matrix"):
        setattr(sp, n, _mat)
    sp.csr_matrix, sp.csc_matrix = _compressed(True), _compressed(False)
    sp.kron, sp.bmat, sp.find = _kron, _bmat, _find
    sp.bsr_matrix = _bsr
    sp.block_diag = _block_diag
    sp.vstack = _stack(0)
    sp.hstack = _stack(1)
    sp.identity = lambda n, **k: Sparse(np.asarray(NP.identity(n)))
    sp.eye = sp.identity
    sp.diags = _diags
    sp.isspmatrix = lambda x: isinstance(x, Sparse)
    sp.issparse = lambda x: isinstance(x, Sparse)
    sl = types.ModuleType("scipy.sparse.linalg")

    def spsolve(A, b):
        return shim.solve(A.A_ if isinstance(A, Sparse) else A, b.A_ if isinstance(b, Sparse) else b)

    def spinv(A):
        return Sparse(np.asarray(shim.inv(A.A_)))
    sl.spsolve = spsolve
    sl.inv = spinv

    def factorized(A):
        return lambda b: spsolve(A, b)
    sl.factorized = factorized
    sl.splu = lambda A: types.SimpleNamespace(solve=lambda b: spsolve(A, b))
    sp.linalg = sl
    la = types.ModuleType("scipy.linalg")
    la.inv = shim.inv
    la.det = shim.det
    la.norm = shim.norm
    la.solve = lambda a, b, **k: shim.NP.linalg.solve(a, b)
    la.polar = Opaque("scipy.linalg").polar
    la.block_diag = lambda *ms: _block_diag(ms).toarray()
    scipy.sparse = sp
    scipy.linalg = la
    scipy.spatial = Opaque("scipy.spatial")
    return scipy


class Log(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "logging")
        for n in ("debug", "info", "warning", "error", "critical", "basicConfig", "exception"):
            setattr(self, n, lambda *a, **k: None)
        self.DEBUG = 10
        self.INFO = 20

    def getLogger(self, *a):
        return self

    def setLevel(self, *a):
        pass


def default_stubs():
    sc = make_scipy()
    return {"scipy": sc, "scipy.sparse": sc.sparse, "scipy.linalg": sc.linalg, "scipy.sparse.linalg": sc.sparse.linalg,
            "scipy.spatial": sc.spatial, "igl": Opaque("igl"), "pxr": Opaque("pxr"),
            "logging": Log(), "matplotlib": Opaque("matplotlib"), "polyscope": Opaque("polyscope")}
