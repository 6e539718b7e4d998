"""Symbolic scalars (rational functions over solver variables), path forking and solver queries."""
import math as _math
import sys
import time
from fractions import Fraction
import numpy as np

from . import z3load
z3 = z3load.z3
from . import poly as P


class Unsupported(Exception):
    """The code left the fragment the encoding supports: inconclusive, never a violation."""


class Infeasible(BaseException):
    """The current path has no inputs (assume() excluded it)."""


class PathAbort(BaseException):
    """Stop exploring this path (its obligations so far count)."""


class Inconclusive(Exception):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return CTX


_fcache = {}


def to_fraction(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    r = _fcache.get(x)
    if r is not None:
        return r
    if _math.isinf(x) or _math.isnan(x):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    if x == int(x) and abs(x) < 1e15:
        r = int(x)
    else:
        r = None
        for lim in (1000, 100000, 10 ** 7):
            f = Fraction(x).limit_denominator(lim)
            if float(f) == x:
                r = f
                break
        if r is None:
            f = Fraction(repr(x))
            r = f
    _fcache[x] = r
    return r


import numpy as _np
_NUM = (int, float, Fraction, _np.integer, _np.floating, _np.bool_)


class VarInfo:
    __slots__ = ("id", "name", "kind", "z", "partials", "nonneg", "base", "positive", "stub")

    def __init__(self, id, name, kind, z):
        self.id = id
        self.name = name
        self.kind = kind
        self.z = z
        self.partials = None
        self.nonneg = False
        self.positive = False
        self.base = False
        self.stub = False


class SymBool:
    """A condition: z3 term, its variables, and a numeric evaluator used for cross-validation runs."""
    __slots__ = ("z", "vs", "f", "eqn", "rel")

    def __init__(self, z, vs, f):
        self.z = z
        self.vs = vs
        self.f = f
        self.eqn = None
        self.rel = None

    def __bool__(self):
        return ctx().branch(self)

    def any(self, *a, **k):
        return self
    all = any

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else False
        return SymBool(z3.And(self.z, o.z), self.vs | o.vs, lambda: self.f() and o.f())
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return True if o else self
        return SymBool(z3.Or(self.z, o.z), self.vs | o.vs, lambda: self.f() or o.f())
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return ~self if o else self
        return SymBool(z3.Xor(self.z, o.z), self.vs | o.vs, lambda: self.f() != o.f())
    __rxor__ = __xor__

    def __invert__(self):
        r = SymBool(z3.Not(self.z), self.vs, lambda: not self.f())
        if self.eqn is not None:
            r.eqn = (self.eqn[0], not self.eqn[1])
        return r

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z, self.vs | o.vs, lambda: self.f() == o.f())
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    # arithmetic with booleans forks
    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.z


def sb_and(*xs):
    xs = [x for x in _flat(xs)]
    zs, vs, fs = [], frozenset(), []
    for x in xs:
        if isinstance(x, SymBool):
            zs.append(x.z)
            vs |= x.vs
            fs.append(x.f)
        elif not x:
            return False
    if not zs:
        return True
    return SymBool(z3.And(*zs) if len(zs) > 1 else zs[0], vs, lambda: all(f() for f in fs))


def sb_or(*xs):
    zs, vs, fs = [], frozenset(), []
    for x in _flat(xs):
        if isinstance(x, SymBool):
            zs.append(x.z)
            vs |= x.vs
            fs.append(x.f)
        elif x:
            return True
    if not zs:
        return False
    return SymBool(z3.Or(*zs) if len(zs) > 1 else zs[0], vs, lambda: any(f() for f in fs))


def sb_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        elif isinstance(x, _np.ndarray):
            yield from x.ravel().tolist()
        else:
            yield x


class Sym:
    __slots__ = ("n", "d", "nn", "__weakref__")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d
        self.nn = False         # known to be a square, or a sum of such (never negative)

    # -- predicates
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and () in self.n))

    def const_value(self):
        return self.n.get((), 0)

    # -- arithmetic
    def __add__(self, o):
        if _is_inf(o):
            return float(o)
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(self, o)
    __radd__ = __add__

    def __neg__(self):
        return Sym(P.neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _is_inf(o):
            return -float(o)
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(self, Sym(P.neg(o.n), o.d))

    def __rsub__(self, o):
        if _is_inf(o):
            return float(o)
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(o, Sym(P.neg(self.n), self.d))

    def __mul__(self, o):
        if _is_inf(o):
            if bool(self > 0):
                return float(o)
            return -float(o) if bool(self < 0) else _math.nan
        o = lift(o)
        if o is NotImplemented:
            return o
        return _mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, float) and _math.isinf(o):
            return Sym(P.ZERO)
        o = lift(o)
        if o is NotImplemented:
            return o
        return _mul(self, ctx().inverse(o))

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _mul(o, ctx().inverse(self))

    def __floordiv__(self, o):
        return ctx().floor(self / o)

    def __rfloordiv__(self, o):
        return ctx().floor(lift(o) / self)

    def __mod__(self, o):
        return self - lift(o) * ctx().floor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k):
        if isinstance(k, Sym):
            if not k.is_const():
                raise Unsupported("symbolic exponent")
            k = k.const_value()
        elif isinstance(k, np.ndarray) and k.ndim:
            return NotImplemented
        k = to_fraction(k)
        if isinstance(k, int):
            if k < 0:
                return 1 / (self ** (-k))
            r = Sym(P.ONE)
            b = self
            while k:
                if k & 1:
                    r = r * b
                b = b * b if k > 1 else b
                k >>= 1
            return r
        if k.denominator == 2:
            s = self.sqrt()
            return s ** k.numerator
        return ctx().root(self, k.denominator) ** k.numerator

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self.const_value()
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return ctx().abs(self)

    # -- comparisons
    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        return _cmp(self, o, "==")

    def __ne__(self, o):
        return _cmp(self, o, "!=")

    def __hash__(self):
        if CTX is not None and CTX.opts.get("symhash", True):
            return 20261120          # one bucket: set and dict membership is decided by (forking) comparisons
        if self.is_const():
            return hash(self.const_value())
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        return ctx().concretize(self)

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        return ctx().concretize(ctx().trunc(self))

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic value")

    def __trunc__(self):
        return ctx().trunc(self)

    def __floor__(self):
        return ctx().floor(self)

    def __ceil__(self):
        return -ctx().floor(-self)

    def __round__(self, n=None):
        if n:
            s = 10 ** n
            return ctx().round(self * s) / s
        return ctx().round(self)

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.const_value()), spec)
        return "<sym>"

    def __str__(self):
        if self.is_const():
            v = self.const_value()
            return str(v if isinstance(v, int) else float(v))
        t = CTX.tokens if CTX is not None else None
        if t is None:
            return "<sym>"
        t.append(self)
        return "\u27e8%d\u27e9" % (len(t) - 1)

    def __repr__(self):
        if CTX is None:
            return "<sym>"
        return CTX.show(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- numpy object-ufunc methods
    def sqrt(self):
        return ctx().sqrt(self)

    def square(self):
        return self * self

    def cos(self):
        return ctx().trig(self)[0]

    def sin(self):
        return ctx().trig(self)[1]

    def tan(self):
        c, s = ctx().trig(self)
        return s / c

    def arctan(self):
        return ctx().atan2(self, lift(1))

    def arctan2(self, x):
        return ctx().atan2(self, lift(x))

    def arccos(self):
        return ctx().acos(self)

    def arcsin(self):
        return ctx().asin(self)

    def exp(self):
        return ctx().exp(self)

    def log(self):
        return ctx().log(self)

    def log2(self):
        return ctx().log(self) / ctx().log(lift(2))

    def log10(self):
        return ctx().log(self) / ctx().log(lift(10))

    def floor(self):
        return ctx().floor(self)

    def ceil(self):
        return -ctx().floor(-self)

    def rint(self):
        return ctx().round(self)

    def fabs(self):
        return ctx().abs(self)

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def sign(self):
        if self > 0:
            return Sym(P.ONE)
        if self < 0:
            return Sym(P.const(-1))
        return Sym(P.ZERO)

    def conjugate(self):
        return self

    def degrees(self):
        return self * 180 / ctx().pi

    def radians(self):
        return self * ctx().pi / 180
    deg2rad = radians
    rad2deg = degrees

    def item(self):
        return self

    def copy(self):
        return self

    def maximum(self, o):
        return ctx().max2(self, lift(o))

    def minimum(self, o):
        return ctx().min2(self, lift(o))

    def logical_not(self):
        return self == 0

    def is_integer(self):
        return bool(self == ctx().floor(self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym(P.ZERO)

    @property
    def T(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def _is_inf(o):
    return isinstance(o, (float, _np.floating)) and _math.isinf(o)


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, _NUM):
        return Sym(P.const(to_fraction(x)))
    if isinstance(x, SymBool):
        return Sym(P.const(int(bool(x))))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


ZERO = Sym(P.ZERO)
ONE = Sym(P.ONE)


def _nn(a):
    return a.nn or (a.is_const() and a.const_value() >= 0)


def _add(a, b):
    r = _add0(a, b)
    if (a.nn or b.nn) and _nn(a) and _nn(b):
        r.nn = True
    return r


def _add0(a, b):
    if a.d == b.d:
        n = P.add(a.n, b.n)
        if not a.d:
            return Sym(n)
        return ctx().make(n, a.d)
    if not a.n:
        return b
    if not b.n:
        return a
    c = ctx()
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for f, e in db.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    na, nb = a.n, b.n
    for f, e in lcm.items():
        ka = e - da.get(f, 0)
        kb = e - db.get(f, 0)
        if ka:
            na = c.ring.mul(na, c.factor_pow(f, ka))
        if kb:
            nb = c.ring.mul(nb, c.factor_pow(f, kb))
    return c.make(P.add(na, nb), tuple(sorted(lcm.items())))


def _mul(a, b):
    r = _mul0(a, b)
    if a is b or (a.d == b.d and a.n == b.n) or ((a.nn or b.nn) and _nn(a) and _nn(b)):
        r.nn = True
    return r


def _mul0(a, b):
    if not a.n or not b.n:
        return ZERO
    if a.is_const():
        return Sym(P.scale(b.n, a.const_value()), b.d)
    if b.is_const():
        return Sym(P.scale(a.n, b.const_value()), a.d)
    c = ctx()
    n = c.ring.mul(a.n, b.n)
    if not a.d and not b.d:
        return Sym(n)
    d = dict(a.d)
    for f, e in b.d:
        d[f] = d.get(f, 0) + e
    return c.make(n, tuple(sorted(d.items())))


_OPS = {
    "<": lambda x: x < 0, "<=": lambda x: x <= 0, ">": lambda x: x > 0, ">=": lambda x: x >= 0,
    "==": lambda x: x == 0, "!=": lambda x: x != 0}


_OPS2 = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def _cmp(a, o, op):
    if isinstance(o, (float, _np.floating)) and not _math.isfinite(o):
        if _math.isnan(o):
            return op == "!="
        if o > 0:
            return op in ("<", "<=", "!=")
        return op in (">", ">=", "!=")
    o = lift(o)
    if o is NotImplemented:
        return NotImplemented
    x = _add(a, Sym(P.neg(o.n), o.d))
    return compare0(x, op)


def compare0(x, op):
    if x.is_const():
        return bool(_OPS[op](x.const_value()))
    if x.nn and op in (">=", "<"):
        return op == ">="
    c = ctx()
    if c.pins:
        n2 = c.apply_pins(x.n)
        if n2 is not x.n:
            x = Sym(n2, x.d)
            if x.is_const() or not n2:
                return bool(_OPS[op](x.const_value() if n2 else 0))
    if c.span:
        n2 = c.span_reduce(x.n)
        if not n2 or (len(n2) == 1 and () in n2):
            if not n2:
                return bool(_OPS[op](0))
            x = Sym(n2, x.d)
            if x.is_const():
                return bool(_OPS[op](x.const_value()))
    if op in ("==", "!="):
        if not x.n:
            return op == "=="
        if c.env is None and (c.bound_known(x.n, ">") or c.bound_known(x.n, "<")):
            return op == "!="
        t = c.zpoly(x.n)
        z = t == 0 if op == "==" else t != 0
        r = SymBool(z, frozenset(P.variables(x.n)), lambda: c.num_cmp(x, op))
        r.eqn = (x.n, op == "==")
        return r
    # quick sign facts
    n = x.n
    if op in (">=", "<") and not x.d and c.obviously_nonneg(n):
        return op == ">="
    t = n
    extra = []
    vs = set(P.variables(n))
    for f, e in x.d:
        if e & 1 and not c.factor_positive(f):
            extra.append(c.zpoly(c.factors[f]))
            vs |= P.variables(c.factors[f])
    t = c.zpoly(n)
    if not extra and c.env is None:
        r = c.bound_known(n, op)
        if r is not None:
            return r
    for e in extra:
        t = t * e
    z = {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0}[op]
    r = SymBool(z, frozenset(vs), lambda: c.num_cmp(x, op))
    if not extra:
        r.rel = (n, op)
    return r


def _np_bool(r):
    return _np.bool_(r) if isinstance(r, bool) else r


class Sym0(Sym):
    """a zero-dimensional array: like the number, but comparisons have .any() and .all()"""
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __lt__(self, o):
        return _np_bool(_cmp(self, o, "<"))

    def __le__(self, o):
        return _np_bool(_cmp(self, o, "<="))

    def __gt__(self, o):
        return _np_bool(_cmp(self, o, ">"))

    def __ge__(self, o):
        return _np_bool(_cmp(self, o, ">="))

    def __eq__(self, o):
        return _np_bool(_cmp(self, o, "=="))

    def __ne__(self, o):
        return _np_bool(_cmp(self, o, "!="))
