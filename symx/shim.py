"""Symbolic stand-ins for numpy/math/scipy/igl/... and the loader for /repo modules."""
import builtins
import math as _math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from . import poly as P
from .sym import Sym, SymBool, lift, Unsupported, ZERO, ONE

REPO = os.environ.get("RAINBOW_REPO", "/repo")


# --------------------------------------------------------------------------- arrays
class SArr(np.ndarray):
    """Object array of Sym; astype(float) keeps symbols."""

    def astype(self, dtype, *a, **k):
        if _is_float(dtype) and self.dtype == object:
            return _mk(self.copy())
        if _is_int(dtype) and self.dtype == object:
            out = np.empty(self.shape, dtype=object)
            fo, fi = out.reshape(-1), self.reshape(-1)
            allc = True
            for i, x in enumerate(fi):
                t = S.ctx().trunc(lift(x))
                fo[i] = t
                allc = allc and t.is_const()
            if allc:
                return np.array([int(x) for x in fo], dtype=int).reshape(self.shape)
            return _mk(out)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SArr) if arr.dtype == object else arr.view(np.ndarray)

    def max(self, axis=None, *a, **k):
        return _reduce_minmax(self, axis, True)

    def min(self, axis=None, *a, **k):
        return _reduce_minmax(self, axis, False)

    def mean(self, axis=None, *a, **k):
        return NP.mean(self, axis=axis)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return NP.sum(self, axis=axis, **k)

    def dot(self, o):
        return NP.dot(self, o)

    def all(self, axis=None, **k):
        return NP.all(self, axis)

    def any(self, axis=None, **k):
        return NP.any(self, axis)

    def argmax(self, axis=None, **k):
        return _argminmax(self, axis, True)

    def argmin(self, axis=None, **k):
        return _argminmax(self, axis, False)

    def round(self, *a, **k):
        return NP.round(self)

    def tolist(self):
        return np.ndarray.tolist(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def _ob(self, o, op):
        return np.ndarray.__getattribute__(self, op)(o)


def _is_float(dt):
    if dt is SymInt:
        return False
    if dt is None:
        return False
    if dt is SymFloat or dt is float:
        return True
    try:
        return np.issubdtype(np.dtype(dt), np.floating) or np.dtype(dt) == object
    except TypeError:
        return False


def _symints(dt):
    """integer arrays hold symbolic integers (option symints)"""
    c = S.CTX
    return c is not None and c.opts.get("symints") and _is_int(dt)


def _full_obj(shape, v):
    a = np.empty(_ishape(shape), dtype=object)
    a.fill(v)
    return a


def _is_int(dt):
    if dt is None:
        return False
    if dt is SymInt or dt is int:
        return True
    try:
        return np.issubdtype(np.dtype(dt), np.integer)
    except TypeError:
        return False


def _dt(dt):
    if dt is SymInt:
        return int
    if dt is SymFloat:
        return float
    return dt


def _mk(a):
    return a.view(SArr)


def tosym(a):
    """array-like of numbers -> SArr of Sym"""
    a = np.asarray(a)
    if a.dtype == object:
        out = a.copy()
    else:
        out = a.astype(object)
    flat = out.reshape(-1)
    for i in range(flat.size):
        x = flat[i]
        if not isinstance(x, Sym):
            if isinstance(x, float) and not _math.isfinite(x):
                continue
            y = lift(x)
            if y is not NotImplemented:
                flat[i] = y
    return _mk(out.reshape(a.shape) if out.ndim == 0 else out)


def _has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_has_sym(y, depth + 1) for y in x)
    return False


def _full(shape, val):
    if isinstance(shape, Sym):
        shape = int(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a[...] = val
    return _mk(a)


def _wrap(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.ndim == 0:
            return a[()]
        return a if isinstance(a, SArr) else _mk(a)
    return a


def _reduce_minmax(a, axis, is_max):
    a = np.asarray(a)
    if a.dtype != object:
        return a.max(axis=axis) if is_max else a.min(axis=axis)
    f = S.ctx().max2 if is_max else S.ctx().min2

    def red(v):
        r = v[0]
        for x in v[1:]:
            r = _mm(r, x, is_max)
        return r
    if axis is None:
        return red(list(a.reshape(-1)))
    return _apply_axis(a, axis, red)


def _mm(x, y, is_max):
    for p, q in ((x, y), (y, x)):
        if isinstance(p, (float, np.floating)) and _math.isinf(p):
            return q if (p < 0) == is_max else p
    x, y = lift(x), lift(y)
    return S.ctx().max2(x, y) if is_max else S.ctx().min2(x, y)


def _apply_axis(a, axis, fn):
    a = np.asarray(a)
    if isinstance(axis, tuple):
        axes = sorted(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(rest + axes).reshape([a.shape[i] for i in rest] + [-1])
        return _apply_axis(b, -1, fn)
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = fn(list(b[idx]))
    return out[()] if out.ndim == 0 else _mk(out)


def _argminmax(a, axis, is_max):
    a = np.asarray(a)

    def f(v):
        k = 0
        for i in range(1, len(v)):
            if (v[i] > v[k]) if is_max else (v[i] < v[k]):
                k = i
        return k
    if axis is None:
        return f(list(a.reshape(-1)))
    r = _apply_axis(a, axis, f)
    return r if not isinstance(r, np.ndarray) else np.asarray(r).astype(int)


def _elementwise(fn):
    def g(x, *rest, out=None, where=True, dtype=None, **k):
        if not _has_sym(x) and isinstance(x, (int, float, Fraction, np.number)):
            return fn(lift(x))
        if isinstance(x, Sym):
            return fn(x)
        a = np.asarray(x, dtype=object)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = fn(lift(a[i]))
        r = _wrap(r)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _cof_inv(A):
    n = A.shape[0]
    d = det(A)
    if isinstance(d == 0, bool) and (d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    if n == 1:
        return _mk(np.array([[1 / A[0, 0]]], dtype=object))
    C = np.empty((n, n), dtype=object)
    di = 1 / d
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, i, 0), j, 1)
            t = det(m)
            C[j, i] = (t if (i + j) % 2 == 0 else -t) * di
    return _mk(C)


def det(A):
    A = np.asarray(A, dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape[:-2], dtype=object)
        for idx in np.ndindex(*A.shape[:-2]):
            out[idx] = det(A[idx])
        return _mk(out)
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return lift(A[0, 0])
    if n == 2:
        return lift(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0])
    r = ZERO
    for j in range(n):
        x = lift(A[0, j])
        if x.is_const() and not x.n:
            continue
        m = np.delete(np.delete(A, 0, 0), j, 1)
        t = x * det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _blocks(A):
    return A


def inv(A):
    A = np.asarray(A, dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for idx in np.ndindex(*A.shape[:-2]):
            out[idx] = inv(A[idx])
        return _mk(out)
    A = tosym(A)
    n = A.shape[0]
    # block-diagonal / diagonal shortcuts keep results small
    comp = _components(A)
    if len(comp) > 1:
        R = _full((n, n), ZERO)
        for c in comp:
            ix = np.ix_(c, c)
            R[ix] = inv(A[ix])
        return R
    if n <= 4:
        return _cof_inv(A)
    return _gauss(A, np.asarray(tosym(np.identity(n))))


def _components(A):
    n = A.shape[0]
    adj = [[j for j in range(n) if i != j and (not _isz(A[i, j]) or not _isz(A[j, i]))] for i in range(n)]
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        st, c = [i], []
        seen.add(i)
        while st:
            k = st.pop()
            c.append(k)
            for j in adj[k]:
                if j not in seen:
                    seen.add(j)
                    st.append(j)
        out.append(sorted(c))
    return out


def _isz(x):
    x = lift(x)
    return x.is_const() and not x.n


def _gauss(A, B):
    A = np.array(A, dtype=object)
    B = np.array(B, dtype=object)
    n = A.shape[0]
    for k in range(n):
        p = None
        for i in range(k, n):
            x = lift(A[i, k])
            if x.is_const():
                if x.n:
                    p = i
                    break
        if p is None:
            for i in range(k, n):
                if not _isz(A[i, k]):
                    if not bool(lift(A[i, k]) == 0):
                        p = i
                        break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if p != k:
            A[[k, p]] = A[[p, k]]
            B[[k, p]] = B[[p, k]]
        iv = 1 / lift(A[k, k])
        for i in range(n):
            if i != k and not _isz(A[i, k]):
                f = A[i, k] * iv
                A[i, k:] = [a - f * b for a, b in zip(A[i, k:], A[k, k:])]
                B[i] = [a - f * b for a, b in zip(np.atleast_1d(B[i]), np.atleast_1d(B[k]))] if B.ndim > 1 else B[i] - f * B[k]
    for k in range(n):
        iv = 1 / lift(A[k, k])
        B[k] = B[k] * iv
    return _mk(B)


def solve(A, b):
    A = np.asarray(A, dtype=object)
    b = np.asarray(b, dtype=object)
    if A.ndim > 2:
        out = np.empty(b.shape, dtype=object)
        for idx in np.ndindex(*A.shape[:-2]):
            out[idx] = solve(A[idx], b[idx])
        return _mk(out)
    A = tosym(A)
    if A.shape[0] <= 4:
        n = A.shape[0]
        d = det(A)
        if _isz(d):
            raise np.linalg.LinAlgError("Singular matrix")
        di = 1 / d
        if b.ndim == 1:
            r = np.empty(n, dtype=object)
            for j in range(n):
                M = A.copy()
                M[:, j] = b
                r[j] = det(M) * di
            return _mk(r)
        return _wrap(np.stack([solve(A, b[:, j]) for j in range(b.shape[1])], axis=1))
    return _gauss(A, b)


def norm(x, ord=None, axis=None, keepdims=False):
    a = np.asarray(x, dtype=object)
    c = S.ctx()
    if ord is not None and ord not in (2, "fro"):
        if ord in (np.inf, _math.inf):
            r = _reduce_minmax(_elementwise(c.abs)(a), axis, True)
            return r
        if ord == 1 and (a.ndim == 1 or axis is not None):
            return NP.sum(_elementwise(c.abs)(a), axis=axis)
        raise Unsupported("norm ord %r" % (ord,))
    if ord == 2 and axis is None and a.ndim == 2:
        raise Unsupported("spectral norm")

    def f(v):
        s = ZERO
        for y in v:
            y = lift(y)
            s = s + y * y
        return c.sqrt(s, True)      # a sum of squares of reals
    if axis is None:
        r = f(list(a.reshape(-1)))
    else:
        r = _apply_axis(a, axis, f)
        if keepdims:
            r = np.expand_dims(r, axis)
    return r


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        self.hooks = {}

    def __getattr__(self, name):
        raise Unsupported("numpy.linalg.%s on symbolic data" % name)

    def multi_dot(self, arrays, out=None):
        r = arrays[0]
        for a in arrays[1:]:
            r = NP.dot(r, a)
        return _out(r, out)

    def matrix_power(self, a, n):
        r = NP.eye(len(a))
        for _ in range(abs(n)):
            r = NP.dot(r, a)
        return r if n >= 0 else inv(r)

    det = staticmethod(det)
    inv = staticmethod(inv)

    def solve(self, A, b):
        h = self.hooks.get("solve")
        return h(A, b) if h else solve(A, b)
    norm = staticmethod(norm)

    def eigh(self, A, **k):
        h = self.hooks.get("eigh")
        if h is None:
            raise Unsupported("eigh without a contract")
        return h(A)

    def eig(self, A):
        h = self.hooks.get("eig")
        if h is None:
            raise Unsupported("eig without a contract")
        return h(A)

    def lstsq(self, A, b, rcond=None):
        h = self.hooks.get("lstsq")
        if h is not None:
            return h(A, b)
        A = np.asarray(A, dtype=object)
        b = np.asarray(b, dtype=object)
        if A.shape[0] == A.shape[1]:
            x = solve(A, b)
        else:
            At = A.T
            x = solve(NP.dot(At, A), NP.dot(At, b))
        return x, None, None, None

    def svd(self, A, **k):
        h = self.hooks.get("svd")
        if h is None:
            raise Unsupported("svd without a contract")
        return h(A)

    def matrix_rank(self, A, **k):
        raise Unsupported("matrix_rank")


class _Random:
    """np.random: every draw is a fresh solver variable in its documented range (or a hook)."""

    def __init__(self):
        self.hooks = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        h = self.hooks.get(name)
        if h is None:
            raise Unsupported("numpy.random.%s without a stub" % name)
        return h

    def uniform(self, lo=0.0, hi=1.0, size=None):
        h = self.hooks.get("uniform")
        if h:
            return h(lo, hi, size)

        def one(_=None):
            c = S.ctx()
            v = c.new_var("rand")
            x = c.sym(v)
            c.define(v, S.z3.And(c.zsym(lift(lo)) <= v.z, v.z <= c.zsym(lift(hi))), c.svars(lift(lo)) | c.svars(lift(hi)))
            return x
        if size is None:
            return one()
        a = _full(size, ZERO)
        for i in np.ndindex(*a.shape):
            a[i] = one()
        return a


_FLOATK = (float, np.floating)


class _NumpyShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        self.linalg = _Linalg()
        self.random = _Random()
        self.testing = np.testing
        self.typing = types.ModuleType("numpy.typing")
        import numpy.typing as npt
        self.typing.ArrayLike = npt.ArrayLike
        self.typing.NDArray = npt.NDArray

    def __getattr__(self, name):
        if name == "pi":
            return PI_TOKEN
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            if "dtype" in k and _is_float(k["dtype"]):
                k = dict(k)
                k["dtype"] = object
            return _wrap(v(*a, **k))
        f.__name__ = name
        return _Ufunc(f, v.identity) if isinstance(v, np.ufunc) and v.nin == 2 else f

    # -- creation
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        dtype = _dt(dtype)
        if isinstance(x, (Sym,)):
            return S.Sym0(x.n, x.d) if not ndmin and not _is_int(dtype) else x
        if _is_int(dtype) and not _has_sym(x):
            return np.array(x, dtype=dtype, ndmin=ndmin)
        if _is_int(dtype):
            return _mk(np.array(x, dtype=object)).astype(int)
        if dtype is bool or dtype == np.bool_ if dtype is not None else False:
            return np.array(x, dtype=bool)
        if _is_float(dtype) or _has_sym(x):
            a = np.array(x, dtype=object, ndmin=ndmin)
            if a.dtype == object and a.ndim >= 1 and a.size and isinstance(a.reshape(-1)[0], (list, tuple)):
                raise ValueError("inhomogeneous array")
            if a.ndim:
                return tosym(a)
            a = _wrap(tosym(a))
            return S.Sym0(a.n, a.d) if isinstance(a, Sym) else a
        a = np.array(x, dtype=dtype, ndmin=ndmin)
        if a.dtype.kind == "f":
            a = tosym(a)
            return S.Sym0(a[()].n, a[()].d) if a.ndim == 0 else a
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (dtype is None or (x.dtype == object and _is_float(dtype))):
            return x
        if isinstance(x, np.ndarray) and _is_int(dtype) and x.dtype.kind == "i":
            return x
        return self.array(x, dtype=dtype)
    ascontiguousarray = asarray
    asanyarray = asarray

    def zeros(self, shape, dtype=float, order=None):
        if _is_float(dtype):
            return _full(shape, ZERO)
        if _symints(dtype):
            return _full_obj(shape, 0)
        return np.zeros(_ishape(shape), dtype=_dt(dtype))

    def ones(self, shape, dtype=float, order=None):
        if _is_float(dtype):
            return _full(shape, ONE)
        if _symints(dtype):
            return _full_obj(shape, 1)
        return np.ones(_ishape(shape), dtype=_dt(dtype))

    def empty(self, shape, dtype=float, order=None):
        if _is_float(dtype):
            return _full(shape, ZERO)
        if _symints(dtype):
            return _full_obj(shape, 0)
        return np.empty(_ishape(shape), dtype=_dt(dtype))

    def full(self, shape, val, dtype=None):
        if dtype is None and isinstance(val, (int, np.integer)) and not isinstance(val, bool):
            return np.full(_ishape(shape), val)
        if _symints(dtype):
            return _full_obj(shape, val)
        if _is_int(dtype) or isinstance(val, bool):
            return np.full(_ishape(shape), val, dtype=dtype)
        if isinstance(val, (list, tuple, np.ndarray)):
            r = _full(shape, ZERO)
            r[...] = tosym(val)
            return r
        if isinstance(val, float) and _math.isinf(val):
            return _full(shape, val)
        return _full(shape, lift(val))

    def zeros_like(self, a, dtype=None):
        a = np.asarray(a)
        if dtype is None and a.dtype != object and a.dtype.kind != "f":
            return np.zeros_like(a)
        return self.zeros(a.shape, dtype or float)

    def ones_like(self, a, dtype=None):
        a = np.asarray(a)
        if dtype is None and a.dtype != object and a.dtype.kind != "f":
            return np.ones_like(a)
        return self.ones(a.shape, dtype or float)

    def empty_like(self, a, dtype=None):
        return self.zeros_like(a, dtype)

    def full_like(self, a, v, dtype=None):
        return self.full(np.asarray(a).shape, v, dtype)

    def identity(self, n, dtype=float):
        if _is_int(dtype):
            return np.identity(n, dtype=dtype)
        return tosym(np.identity(int(n), dtype=int))

    def eye(self, n, m=None, k=0, dtype=float):
        return tosym(np.eye(int(n), m, k, dtype=int))

    def diag(self, v, k=0):
        v = np.asarray(v)
        if v.dtype != object:
            return np.diag(v, k)
        if v.ndim == 2:
            return _mk(np.diag(v, k))
        n = len(v) + abs(k)
        r = _full((n, n), ZERO)
        for i in range(len(v)):
            r[i - min(k, 0), i + max(k, 0)] = v[i]
        return r

    def linspace(self, a, b, num=50, endpoint=True, **k):
        a, b = lift(a), lift(b)
        num = int(num)
        d = (num - 1) if endpoint else num
        return _mk(np.array([a + (b - a) * Fraction(i, d) if d else a for i in range(num)] + [None], dtype=object)[:-1])

    def arange(self, *a, **k):
        if not any(isinstance(x, (Sym, float)) for x in a):
            return np.arange(*a, **{x: _dt(y) for x, y in k.items()})
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        out = []
        x = lift(lo)
        while x < hi:
            out.append(x)
            x = x + st
            if len(out) > 10000:
                raise Unsupported("arange")
        return tosym(np.array(out + [None], dtype=object)[:-1])

    def copy(self, a, **k):
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, Sym):
            return a
        return self.array(a)

    def copyto(self, dst, src, **k):
        dst[...] = src

    # -- elementwise
    def sqrt(self, x, **k):
        return _elementwise(lambda v: S.ctx().sqrt(v))(x)

    def sin(self, x, **k):
        return _elementwise(lambda v: v.sin())(x)

    def cos(self, x, **k):
        return _elementwise(lambda v: v.cos())(x)

    def tan(self, x, **k):
        return _elementwise(lambda v: v.tan())(x)

    def arctan(self, x, **k):
        return _elementwise(lambda v: v.arctan())(x)

    def arccos(self, x, **k):
        return _elementwise(lambda v: v.arccos())(x)

    def arcsin(self, x, **k):
        return _elementwise(lambda v: v.arcsin())(x)

    def exp(self, x, **k):
        return _elementwise(lambda v: v.exp())(x)

    def log(self, x, **k):
        return _elementwise(lambda v: v.log())(x)

    def log2(self, x, **k):
        return _elementwise(lambda v: v.log2())(x)

    def log10(self, x, **k):
        return _elementwise(lambda v: v.log10())(x)

    def abs(self, x, **k):
        if S._is_inf(x):
            return _math.inf
        return _elementwise(lambda v: S.ctx().abs(v))(x)
    fabs = abs
    absolute = abs

    def sign(self, x, **k):
        return _elementwise(lambda v: v.sign())(x)

    def square(self, x, **k):
        return x * x

    def deg2rad(self, x):
        return x * S.ctx().pi / 180
    radians = deg2rad

    def rad2deg(self, x):
        return x * 180 / S.ctx().pi
    degrees = rad2deg

    def floor(self, x, **k):
        return _elementwise(lambda v: S.ctx().floor(v))(x)

    def ceil(self, x, **k):
        return _elementwise(lambda v: -S.ctx().floor(-v))(x)

    def rint(self, x, **k):
        return _elementwise(lambda v: S.ctx().round(v))(x)

    def trunc(self, x, **k):
        return _elementwise(lambda v: S.ctx().trunc(v))(x)

    def round(self, x, decimals=0, **k):
        if decimals:
            s = 10 ** decimals
            return _elementwise(lambda v: S.ctx().round(v * s) / s)(x)
        return _elementwise(lambda v: S.ctx().round(v))(x)
    around = round

    def arctan2(self, y, x):
        if isinstance(y, np.ndarray):
            x = np.broadcast_to(np.asarray(x, dtype=object), y.shape)
            r = np.empty(y.shape, dtype=object)
            for i in np.ndindex(*y.shape):
                r[i] = S.ctx().atan2(lift(y[i]), lift(x[i]))
            return _wrap(r)
        return S.ctx().atan2(lift(y), lift(x))

    def hypot(self, a, b):
        return self.sqrt(a * a + b * b)

    def power(self, a, b):
        if isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return _elementwise(lambda v: v ** b)(a)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(A.shape, dtype=object)
            for i in np.ndindex(*A.shape):
                r[i] = lift(A[i]) ** B[i]
            return _wrap(r)
        return a ** b

    def isfinite(self, x):
        return self._fin(x, True)

    def isnan(self, x):
        return self._fin(x, False)

    def isinf(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([isinstance(v, float) and _math.isinf(v) for v in x.reshape(-1)]).reshape(x.shape)
        return isinstance(x, float) and _math.isinf(x)

    def _fin(self, x, val):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([_fin1(v) if val else _nan1(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
        if isinstance(x, np.ndarray):
            return np.isfinite(x) if val else np.isnan(x)
        return _fin1(x) if val else _nan1(x)

    def maximum(self, a, b, **k):
        return self._mm(a, b, True)

    def minimum(self, a, b, **k):
        return self._mm(a, b, False)
    fmax = maximum
    fmin = minimum

    def _mm(self, a, b, mx):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(A.shape, dtype=object)
            for i in np.ndindex(*A.shape):
                r[i] = _mm(A[i], B[i], mx)
            return _wrap(r)
        return _mm(a, b, mx)

    def clip(self, x, lo, hi, out=None, **k):
        r = x
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r

    # -- reductions
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if hasattr(a, "_sparse"):
            return a.sum(axis=axis)
        if isinstance(a, (list, tuple)) or not isinstance(a, np.ndarray):
            a = self.array(list(a) if not isinstance(a, (list, tuple)) and hasattr(a, "__iter__") else a)
        if not isinstance(a, np.ndarray):
            return a
        if a.dtype != object:
            return np.sum(np.asarray(a), axis=axis, keepdims=keepdims)
        b = np.asarray(a)
        r = np.add.reduce(b, axis=tuple(range(b.ndim)) if axis is None else axis, keepdims=keepdims)
        return r if not isinstance(r, np.ndarray) else _wrap(r)

    def prod(self, a, axis=None, **k):
        a = np.asarray(a)
        r = np.multiply.reduce(a, axis=tuple(range(a.ndim)) if axis is None else axis)
        return _wrap(r) if isinstance(r, np.ndarray) else r

    def mean(self, a, axis=None, **k):
        a = a if isinstance(a, np.ndarray) else self.array(a)
        n = a.size if axis is None else a.shape[axis]
        s = self.sum(a, axis=axis)
        if isinstance(s, np.ndarray) and s.dtype != object:
            s = tosym(s)
        return (lift(s) if not isinstance(s, np.ndarray) else s) * Fraction(1, n)
    average = mean

    def max(self, a, axis=None, **k):
        return _reduce_minmax(a if isinstance(a, np.ndarray) else self.array(a), axis, True)
    amax = max

    def min(self, a, axis=None, **k):
        return _reduce_minmax(a if isinstance(a, np.ndarray) else self.array(a), axis, False)
    amin = min

    def argmax(self, a, axis=None, **k):
        return _argminmax(a if isinstance(a, np.ndarray) else self.array(a), axis, True)

    def argmin(self, a, axis=None, **k):
        return _argminmax(a if isinstance(a, np.ndarray) else self.array(a), axis, False)

    def all(self, a, axis=None, **k):
        if isinstance(a, (SymBool, Sym, bool, np.bool_)):
            return bool(a)
        a = np.asarray(a)
        if a.dtype != object:
            return np.all(a, axis=axis)
        if axis is None:
            for x in a.reshape(-1):
                if not x:
                    return False
            return True
        return np.asarray(_apply_axis(a, axis, lambda v: all(bool(x) for x in v))).astype(bool)

    def any(self, a, axis=None, **k):
        if isinstance(a, (SymBool, Sym, bool, np.bool_)):
            return bool(a)
        a = np.asarray(a)
        if a.dtype != object:
            return np.any(a, axis=axis)
        if axis is None:
            for x in a.reshape(-1):
                if x:
                    return True
            return False
        return np.asarray(_apply_axis(a, axis, lambda v: any(bool(x) for x in v))).astype(bool)

    def count_nonzero(self, a, axis=None, **k):
        a = np.asarray(a)
        if a.dtype != object:
            return np.count_nonzero(a, axis=axis)
        b = np.array([bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
        return np.count_nonzero(b, axis=axis)

    @staticmethod
    def _pick(c, x, y):
        """x if c else y, one number each; min, max and abs are recognised"""
        rel = getattr(c, "rel", None)
        if rel is not None and all(isinstance(e, Sym) or (isinstance(e, (int, float, np.number)) and np.isfinite(e)) for e in (x, y)):
            X, Y = lift(x), lift(y)
            n, op = rel
            d = X - Y
            if not d.d and not d.is_const():
                if n == d.n or n == P.neg(d.n):
                    return _mm(X, Y, (op[0] == ">") == (n == d.n))
                if d.n == P.scale(X.n, 2) and n in (X.n, Y.n) and not X.d:
                    r = S.ctx().abs(X)
                    return r if (op[0] == ">") == (n == X.n) else -r
        return x if bool(c) else y

    def where(self, c, a=None, b=None):
        if a is None:
            cc = np.asarray(c)
            if cc.dtype == object:
                cc = np.array([bool(x) for x in cc.reshape(-1)], dtype=bool).reshape(cc.shape)
            return np.where(cc)
        if isinstance(c, (SymBool, bool, np.bool_)):
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                return self._pick(c, a, b)
            if not isinstance(c, SymBool):
                c = bool(c)
        cc = np.asarray(c)
        if cc.dtype == object:
            A, B = np.asarray(a), np.asarray(b)
            if all(not o.dtype.kind in "OSU" or all(isinstance(e, (Sym, int, float)) for e in o.reshape(-1)) for o in (A, B)):
                A, B, C = np.broadcast_arrays(A, B, cc)
                r = np.empty(C.shape, dtype=object)
                for i in np.ndindex(*C.shape):
                    r[i] = self._pick(C[i], A[i], B[i])
                return _wrap(r)
            cc = np.array([bool(x) for x in cc.reshape(-1)], dtype=bool).reshape(cc.shape)
        r = np.where(cc, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        return _wrap(r)

    def intersect1d(self, a, b, **k):
        A = [lift(x) for x in np.asarray(a, dtype=object).reshape(-1)]
        B = [lift(x) for x in np.asarray(b, dtype=object).reshape(-1)]
        out = []
        for x in A:
            for y in B:
                if not any(S.compare0(x - o, "==") is True for o in out) and bool(x == y):
                    if not any(bool(x == o) for o in out):
                        out.append(x)
        return _mk(np.array(out, dtype=object))

    def unique(self, a, *args, **k):
        a_ = np.asarray(a)
        if a_.dtype != object:
            return np.unique(a_, *args, **k)
        raise Unsupported("unique on symbolic data")

    def lexsort(self, keys, axis=-1):
        import functools
        ks = [list(np.asarray(x).reshape(-1)) for x in keys]
        n = len(ks[0])

        def cmp(i, j):
            for kk in reversed(ks):
                if kk[i] < kk[j]:
                    return -1
                if kk[i] > kk[j]:
                    return 1
            return 0
        return np.array(sorted(range(n), key=functools.cmp_to_key(cmp)), dtype=int)

    def argsort(self, a, **k):
        a = np.asarray(a)
        if a.dtype != object:
            return np.argsort(a, **k)
        if a.ndim != 1:
            raise Unsupported("argsort 2d")
        return self.lexsort([a])

    def sort(self, a, axis=-1, **k):
        a = np.asarray(a)
        if a.dtype != object:
            return np.sort(a, axis=axis)
        return _mk(np.array(list(a[self.argsort(a)]) + [None], dtype=object)[:-1])

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for x, y in zip(A.reshape(-1), B.reshape(-1)):
            x, y = lift(x), lift(y)
            if not S.ctx().abs(x - y) <= atol + rtol * S.ctx().abs(y):
                return False
        return True

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        def one(x, y):
            x, y = lift(x), lift(y)
            return bool(S.ctx().abs(x - y) <= atol + rtol * S.ctx().abs(y))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            return np.array([one(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))], dtype=bool).reshape(A.shape)
        return one(a, b)

    def finfo(self, dtype=None):
        return np.finfo(np.float64)

    def array_equal(self, a, b, **k):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))

    # -- linear algebra
    def dot(self, a, b, out=None):
        if not isinstance(a, np.ndarray) and not hasattr(a, "__len__"):
            return a * b
        if not isinstance(b, np.ndarray) and not hasattr(b, "__len__"):
            return a * b
        if hasattr(a, "_sparse"):
            return a.dot(b)
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype != object and b.dtype != object:
            r = np.dot(a, b)
            return tosym(r) if isinstance(r, np.ndarray) and r.dtype.kind == "f" else r
        r = np.dot(a.astype(object), b.astype(object))
        if isinstance(r, np.ndarray):
            r = _wrap(r)
            if out is not None:
                out[...] = r
        return lift(r) if isinstance(r, (int, float)) else r

    def matmul(self, a, b, out=None):
        if hasattr(a, "_sparse"):
            return a.dot(b)
        a, b = np.asarray(a), np.asarray(b)
        r = np.matmul(a.astype(object), b.astype(object))
        if out is not None:
            out[...] = r
        return _wrap(r) if isinstance(r, np.ndarray) else r

    def inner(self, a, b):
        return self.dot(a, np.asarray(b).T)

    def vdot(self, a, b):
        return self.dot(np.asarray(a).reshape(-1), np.asarray(b).reshape(-1))

    def outer(self, a, b, out=None):
        a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
        return _mk(np.multiply.outer(a, b))

    def cross(self, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if axis is not None:
            axisa = axisb = axisc = axis
        if a.shape[axisa] != 3 or b.shape[axisb] != 3:
            raise Unsupported("2d cross")
        a = np.moveaxis(a, axisa, -1)
        b = np.moveaxis(b, axisb, -1)
        r = np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                      a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                      a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)
        if r.ndim > 1:
            r = np.moveaxis(r, -1, axisc)
        return _mk(r)

    def trace(self, a, offset=0, axis1=0, axis2=1, **k):
        a = np.asarray(a)
        d = np.diagonal(a, offset, axis1, axis2)
        return self.sum(_wrap(d) if d.dtype == object else d, axis=-1) if d.ndim > 1 else self.sum(_mk(d) if d.dtype == object else d)

    def tensordot(self, a, b, axes=2):
        r = np.tensordot(np.asarray(a, dtype=object), np.asarray(b, dtype=object), axes)
        return _wrap(r)

    def einsum(self, spec, *ops, **k):
        spec = spec.replace(" ", "")
        ins, out = spec.split("->") if "->" in spec else (spec, None)
        ins = ins.split(",")
        ops = [np.asarray(o, dtype=object) for o in ops]
        dots = ""
        if "." in spec:                  # the ellipsis stands for the same broadcast axes everywhere
            nd = [o.ndim - len(s.replace("...", "")) if "..." in s else 0 for s, o in zip(ins, ops)]
            big = max(nd)
            dots = "".join(chr(0x3b1 + i) for i in range(big))
            lead = np.broadcast_shapes(*[o.shape[s.index("."):s.index(".") + d] for s, o, d in zip(ins, ops, nd) if "..." in s])
            for i, (s, d) in enumerate(zip(list(ins), nd)):
                if "..." in s:
                    at = s.index(".")
                    o = ops[i]
                    o = o.reshape(o.shape[:at] + (1,) * (big - d) + o.shape[at:])
                    ops[i] = np.broadcast_to(o, o.shape[:at] + lead + o.shape[at + big:])
                    ins[i] = s.replace("...", dots)
        if out is None:
            allc = "".join(ins)
            out = dots + "".join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in dots))
        out = out.replace("...", dots)
        dims = {}
        for s, o in zip(ins, ops):
            for c, n in zip(s, o.shape):
                dims[c] = n
        sumc = [c for c in dims if c not in out]
        res = np.empty([dims[c] for c in out], dtype=object)
        for oi in np.ndindex(*res.shape):
            env = dict(zip(out, oi))
            t = ZERO
            for si in np.ndindex(*[dims[c] for c in sumc]):
                env.update(zip(sumc, si))
                p = ONE
                for s, o in zip(ins, ops):
                    p = p * o[tuple(env[c] for c in s)]
                t = t + p
            res[oi] = t
        return _wrap(res)

    def cov(self, m, **k):
        m = np.asarray(m, dtype=object)
        n = m.shape[1]
        mu = [self.sum(_mk(r)) * Fraction(1, n) for r in m]
        X = np.array([[m[i, j] - mu[i] for j in range(n)] for i in range(m.shape[0])], dtype=object)
        if n == 1:
            raise Unsupported("cov of one sample")
        return _mk(np.dot(X, X.T) * lift(Fraction(1, n - 1)))

    def vectorize(self, f, *a, **k):
        def g(*args):
            arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in args])
            r = np.empty(arrs[0].shape, dtype=object)
            for i in np.ndindex(*r.shape):
                r[i] = f(*[x[i] for x in arrs])
            return _wrap(r)
        return g

    def subtract(self, a, b, out=None, **k):
        r = _bin(a, b, lambda x, y: x - y)
        return _out(r, out)

    def add(self, a, b, out=None, **k):
        return _out(_bin(a, b, lambda x, y: x + y), out)

    def multiply(self, a, b, out=None, **k):
        return _out(_bin(a, b, lambda x, y: x * y), out)

    def divide(self, a, b, out=None, **k):
        return _out(_bin(a, b, lambda x, y: x / y), out)
    true_divide = divide

    def negative(self, a, out=None):
        return _out(-a, out)

    def fromstring(self, s, dtype=float, sep=""):
        from . import text
        if text.symbolic(s):
            return tosym(np.array([lift(x) for x in text.fromstring(s, sep)], dtype=object))
        return tosym(np.fromstring(s, dtype=np.float64, sep=sep))

    def meshgrid(self, *xs, **k):
        r = np.meshgrid(*[np.asarray(x, dtype=object) if _has_sym(x) else x for x in xs], **k)
        return [_wrap(x) for x in r]

    def float_power(self, a, b):
        return _bin(a, b, lambda x, y: x ** y)

    def copysign(self, a, b):
        r = self.abs(a)
        return self.where(self.asarray(b) >= 0, r, -r) if np.ndim(b) else (r if b >= 0 else -r)

    def asfarray(self, a, dtype=float):
        return self.asarray(a, dtype=dtype)


def _bin(a, b, f):
    a = a if isinstance(a, (np.ndarray, Sym)) else (NP.array(a) if isinstance(a, (list, tuple)) else lift(a))
    b = b if isinstance(b, (np.ndarray, Sym)) else (NP.array(b) if isinstance(b, (list, tuple)) else lift(b))
    r = f(a, b)
    return _wrap(r) if isinstance(r, np.ndarray) else r


def _out(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


def _fin1(v):
    return not (isinstance(v, (float, np.floating)) and not _math.isfinite(v))


def _nan1(v):
    return isinstance(v, (float, np.floating)) and _math.isnan(v)


def _ishape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


# np.float64 must stay usable as a dtype
class _F64Meta(type(np.float64)):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Sym))

    def __subclasscheck__(cls, x):
        return issubclass(x, np.float64)


class _F64(np.float64, metaclass=_F64Meta):
    """np.float64: a dtype, and the identity on symbolic numbers"""
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return NP.array(x, dtype=float) if x.ndim else x[()]
        return np.float64(x)


_NumpyShim.float64 = _F64
_NumpyShim.float32 = np.float32
_NumpyShim.Inf = float("inf")
_NumpyShim.inf = float("inf")
_NumpyShim.ndarray = np.ndarray
NP = _NumpyShim()


class _Ufunc:
    """a binary function with the methods of a numpy ufunc"""
    def __init__(self, f, unit):
        self.f, self.unit, self.__name__ = f, unit, f.__name__

    def __call__(self, *a, where=True, **k):
        if where is True:
            return self.f(*a, **k)
        x, y, m = np.broadcast_arrays(*[np.asarray(v, dtype=object) for v in (a[0], a[1], where)])
        out = k.get("out", a[2] if len(a) > 2 else None)
        out = out[0] if isinstance(out, tuple) else out
        if out is None:
            out = NP.zeros(x.shape)
        for i in np.ndindex(*x.shape):
            if m[i]:
                out[i] = self.f(x[i], y[i])
        return out

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None):
        a = NP.asarray(a)
        ax = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
        keep = tuple(n for i, n in enumerate(a.shape) if i not in ax)
        b = np.moveaxis(a, ax, tuple(range(len(ax)))).reshape((-1,) + keep)
        r = initial
        for x in b:
            r = x if r is None else self.f(r, x)
        if r is None:
            if self.unit is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = NP.full(keep, self.unit) if keep else lift(self.unit)
        if isinstance(r, np.ndarray):
            r = r.copy()
        if keepdims:
            r = NP.asarray(r).reshape(tuple(1 if i in ax else n for i, n in enumerate(a.shape)))
        return _out(r, out)

    def accumulate(self, a, axis=0):
        a = NP.asarray(a)
        r = np.moveaxis(a.copy(), axis, 0)
        for i in range(1, len(r)):
            r[i] = self.f(r[i - 1], r[i])
        return _wrap(np.moveaxis(r, 0, axis))

    def outer(self, a, b):
        a, b = NP.asarray(a), NP.asarray(b)
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b.reshape((1,) * a.ndim + b.shape))

    def at(self, a, idx, b=None):
        i = idx if isinstance(idx, tuple) else (idx,)
        if all(isinstance(x, (int, np.integer, list, np.ndarray)) for x in i):
            sel = np.broadcast_arrays(*[np.asarray(x) for x in i])
            if sel[0].dtype == bool:
                raise Unsupported("ufunc.at with a mask")
            tail = a.shape[len(sel):]
            vals = np.broadcast_to(NP.asarray(b), sel[0].shape + tail)
            for k in np.ndindex(*sel[0].shape):
                j = tuple(int(s[k]) for s in sel)
                a[j] = self.f(a[j], vals[k])
        else:
            a[idx] = self.f(a[idx], b)


for _n, _u in (("add", 0), ("subtract", None), ("multiply", 1), ("divide", None), ("true_divide", None), ("maximum", None), ("minimum", None),
               ("fmax", None), ("fmin", None), ("logical_and", True), ("logical_or", False)):
    if hasattr(_NumpyShim, _n):
        setattr(NP, _n, _Ufunc(getattr(NP, _n), _u))


# --------------------------------------------------------------------------- math
class _MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")

    def __getattr__(self, name):
        if name in ("pi", "tau"):
            return PI_TOKEN if name == "pi" else 2 * _math.pi
        v = getattr(_math, name)
        if not callable(v):
            return v

        def f(*a):
            if any(_has_sym(x) for x in a):
                raise Unsupported("math.%s on symbolic data" % name)
            return v(*a)
        return f

    def sqrt(self, x):
        return S.ctx().sqrt(lift(x))

    def sin(self, x):
        return lift(x).sin()

    def cos(self, x):
        return lift(x).cos()

    def tan(self, x):
        return lift(x).tan()

    def atan2(self, y, x):
        return S.ctx().atan2(lift(y), lift(x))

    def atan(self, x):
        return lift(x).arctan()

    def acos(self, x):
        return S.ctx().acos(lift(x))

    def asin(self, x):
        return S.ctx().asin(lift(x))

    def exp(self, x):
        return S.ctx().exp(lift(x))

    def log(self, x, base=None):
        r = S.ctx().log(lift(x))
        return r if base is None else r / S.ctx().log(lift(base))

    def log2(self, x):
        return lift(x).log2()

    def fabs(self, x):
        return S.ctx().abs(lift(x))

    def fsum(self, xs):
        t = ZERO
        for x in xs:
            t = t + x
        return t

    def floor(self, x):
        return S.ctx().floor(lift(x))

    def ceil(self, x):
        return -S.ctx().floor(-lift(x))

    def trunc(self, x):
        return S.ctx().trunc(lift(x))

    def pow(self, x, y):
        return lift(x) ** y

    def hypot(self, *a):
        s = ZERO
        for x in a:
            s = s + lift(x) * x
        return S.ctx().sqrt(s)

    def isfinite(self, x):
        return _fin1(x)

    def isnan(self, x):
        return _nan1(x)

    def isinf(self, x):
        return isinstance(x, float) and _math.isinf(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = lift(a), lift(b)
        c = S.ctx()
        return bool(c.abs(a - b) <= c.max2(rel_tol * c.max2(c.abs(a), c.abs(b)), lift(abs_tol)))

    def degrees(self, x):
        return lift(x).degrees()

    def radians(self, x):
        return lift(x).radians()

    def copysign(self, x, y):
        a = S.ctx().abs(lift(x))
        return a if y >= 0 else -a

    def fmod(self, x, y):
        x, y = lift(x), lift(y)
        return x - y * S.ctx().trunc(x / y)

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def dist(self, a, b):
        return norm(np.asarray(a, dtype=object) - np.asarray(b, dtype=object))


class _PiToken(float):
    """`from math import pi` at module level: resolved to the solver's pi on use."""

    def __new__(cls):
        return float.__new__(cls, _math.pi)

    def _s(self):
        return S.ctx().pi if S.CTX is not None else float(self)

    def __add__(self, o): return self._s() + o
    def __radd__(self, o): return o + self._s()
    def __sub__(self, o): return self._s() - o
    def __rsub__(self, o): return o - self._s()
    def __mul__(self, o): return self._s() * o
    def __rmul__(self, o): return o * self._s()
    def __truediv__(self, o): return self._s() / o
    def __rtruediv__(self, o): return o / self._s()
    def __neg__(self): return -self._s()
    def __lt__(self, o): return self._s() < o
    def __le__(self, o): return self._s() <= o
    def __gt__(self, o): return self._s() > o
    def __ge__(self, o): return self._s() >= o
    def __mod__(self, o): return self._s() % o
    def __rmod__(self, o): return o % self._s()
    __hash__ = float.__hash__
    def __eq__(self, o): return self is o or (isinstance(o, Sym) and self._s() == o)


PI_TOKEN = _PiToken()
_old_lift = S.lift


def _lift(x):
    if type(x) is _PiToken:
        return x._s() if S.CTX is not None else _old_lift(float(x))
    if isinstance(x, float) and S.CTX is not None:
        k = _pi_multiple(x)
        if k is not None:
            return S.CTX.pi * k
    return _old_lift(x)


_pim = {}


def _pi_multiple(x):
    """a float constant that is exactly the double nearest to k*pi/24 denotes that multiple of pi"""
    if x in _pim:
        return _pim[x]
    r = None
    if _math.isfinite(x) and 0.1 < abs(x) < 1000:
        k = round(x * 24 / _math.pi)
        if k and abs(k * _math.pi / 24 - x) <= 4e-16 * abs(x):
            r = Fraction(k, 24)
    _pim[x] = r
    return r


S.lift = _lift
lift = _lift
from . import engine as _E
_E.lift = _lift

MATH = _MathShim()


# --------------------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SymFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return lift(x.reshape(-1)[0])
        if isinstance(x, SymBool):
            return lift(int(bool(x)))
        if isinstance(x, str):
            from . import text
            return text.value(x)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return S.ctx().trunc(x) if not x.is_const() else int(x)
        if isinstance(x, str):
            from . import text
            if text.symbolic(x):
                if a or not __import__("re").fullmatch(r"\s*[+-]?\d+\s*", x):
                    int(text.skeleton(x), *a)
                    raise Unsupported("int of symbolic text")
                return text.value(x)
        return int(x, *a) if a else int(x)


def _sym_min(*a, **k):
    if k or len(a) == 0:
        return min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, Sym) for x in xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = _mm(r, x, False)
    return r


def _sym_max(*a, **k):
    if k or len(a) == 0:
        return max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, Sym) for x in xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = _mm(r, x, True)
    return r


def _quiet(*a, **k):
    pass


class _NB(types.ModuleType):
    """numba: decorators are the identity, prange is range."""

    def __init__(self):
        types.ModuleType.__init__(self, "numba")
        self.prange = range
        self.set_num_threads = lambda n: None
        self.get_num_threads = lambda: 1
        self.config = types.SimpleNamespace(NUMBA_NUM_THREADS=2)
        self.types = self
        for n in ("float64", "int64", "int32", "boolean"):
            setattr(self, n, None)
        self.typed = types.SimpleNamespace(List=list, Dict=dict)

    @staticmethod
    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    jit = njit
    vectorize = njit
    guvectorize = njit


class _Loader:
    """Loads rainbow.* from source with redirected imports; one namespace per Loader."""

    def __init__(self, stubs=None):
        self.mods = {}
        self.funcs = {}
        self.stubs = {"numpy": NP, "math": MATH, "numba": _NB(), "numpy.linalg": NP.linalg,
                      "numpy.typing": NP.typing, "numpy.random": NP.random}
        from . import text
        self.stubs["pyparsing"], self.stubs["re"] = text.make_pyparsing(), text.Re()
        self.stubs.update(stubs or {})
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = SymFloat
        b["int"] = SymInt
        b["min"] = _sym_min
        b["max"] = _sym_max
        b["print"] = _quiet
        self.builtins = b

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split("."))
        pkg = os.path.isdir(path)
        if "." in name:
            parent = self.get(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if pkg:
            m.__path__ = [path]
            m.__package__ = name
            f = os.path.join(path, "__init__.py")
        else:
            m.__package__ = name.rpartition(".")[0]
            f = path + ".py"
        m.__file__ = f
        if "." in name:
            setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        if os.path.exists(f):
            with open(f) as fh:
                src = fh.read()
            from . import select
            self.builtins["__select__"] = select.select
            code = select.compile_source(src, f)
            saved, S.CTX = S.CTX, None
            try:
                exec(code, m.__dict__)
            finally:
                S.CTX = saved
        elif not pkg:
            del self.mods[name]
            raise ImportError("No module named %r" % name)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "rainbow" or name.startswith("rainbow."):
            m = self.get(name)
            if fromlist:
                for x in fromlist:
                    if x != "*" and not hasattr(m, x):
                        try:
                            self.get(name + "." + x)
                        except ImportError:
                            pass
                return m
            return self.mods["rainbow"]
        if name in self.stubs:
            m = self.stubs[name]
            if fromlist or "." not in name:
                return m
            top = name.split(".")[0]
            return self.stubs.get(top, m)
        top = name.split(".")[0]
        if top in self.stubs:
            m = self.stubs[top]
            if fromlist:
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            return m
        if top in ("scipy", "igl", "pxr"):
            raise Unsupported("import of %s without a stub" % name)
        return __import__(name, globals, locals, fromlist, 0)


Loader = _Loader
