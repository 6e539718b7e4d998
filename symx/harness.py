"""Harness API (one harness, three modes: symbolic, cross-validation, real replay) and the explorer."""
import functools
import inspect
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import sym as S
from . import poly as P
from . import shim
from . import engine as E
from .sym import Sym, SymBool, Unsupported, Infeasible, PathAbort, z3
from .shim import NP, SArr, tosym

lift = shim.lift

REGISTRY = {}
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


class Harness:
    def __init__(self, prop, name, fn, funcs, bounds, opts):
        self.prop, self.name, self.fn, self.funcs, self.bounds, self.opts = prop, name, fn, funcs, bounds, opts


def harness(prop, funcs="", bounds="", name=None, **opts):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, funcs.split() if isinstance(funcs, str) else list(funcs), bounds, opts)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


class ReplayFailure(Exception):
    """An assertion of the harness failed on the real code."""


class Violation(BaseException):
    def __init__(self, what, values):
        self.what, self.values = what, values


class CodeError(Exception):
    """raised by harnesses around an unexpected exception of the code under test"""


# =========================================================================== symbolic mode
class SymCase:
    sym = True

    @property
    def thorough(self):
        return THOROUGH

    def __init__(self, ctx, loader, h, explorer):
        self.ctx = ctx
        self.loader = loader
        self.np = NP
        self.h = h
        self.ex = explorer
        self.inputs = []     # (name, kind, data)
        self.obs = {}
        self.choices = {}

    # -- environment
    def mod(self, name):
        return self.loader.get(name)

    @property
    def pi(self):
        return self.ctx.pi

    def array(self, x):
        return tosym(np.array(x, dtype=object))

    def iarray(self, x):
        if self.ctx.opts.get("symints"):
            a = np.array(x, dtype=object)
            if any(isinstance(v, Sym) for v in a.reshape(-1)):
                return a.view(SArr)
        return np.array(x, dtype=int)

    # -- inputs
    def _val(self, name):
        return self.ctx.env[name] if self.ctx.env is not None else None

    def real(self, name, lo=None, hi=None, pick=None):
        v = self.ctx.base_real(name, self._val(name))
        self.inputs.append((name, "real", (v, lo, hi)))
        for c in ([v >= lo] if lo is not None else []) + ([v <= hi] if hi is not None else []):
            self.ctx.cons.append((c.z, c.vs, None))
        if lo is not None and lo >= 0:
            (m, _), = v.n.items()
            self.ctx.vars[m[0][0]].nonneg = True
        return v

    def pos(self, name, hi=None, pick=None):
        v = self.real(name, None, hi)
        c = v > 0
        self.ctx.cons.append((c.z, c.vs, None))
        (m, _), = v.n.items()
        self.ctx.vars[m[0][0]].nonneg = True
        self.ctx.vars[m[0][0]].positive = True
        self.ctx.fnonzero.add(self.ctx.factor_id(v.n))
        self.inputs[-1] = (name, "pos", (v, 0.05, hi))
        return v

    def vec(self, name, n=3, lo=None, hi=None):
        return _arr([self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)])

    def mat(self, name, n=3, m=3, lo=None, hi=None):
        return _arr([[self.real("%s[%d,%d]" % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def integer(self, name, lo, hi):
        vi = self.ctx.new_var(name, "int", self._val(name))
        vi.base = True
        v = self.ctx.sym(vi)
        self.inputs.append((name, "int", (v, lo, hi)))
        c1, c2 = v >= lo, v <= hi
        self.ctx.cons.append((c1.z, c1.vs, None))
        self.ctx.cons.append((c2.z, c2.vs, None))
        if lo >= 0:
            vi.nonneg = True
        return v

    def digit(self, name):
        """a character: an arbitrary decimal digit"""
        from . import text
        return text.new_digit(self.integer(name, 0, 9))

    def float_of(self, s):
        from . import text
        return text.value(s)

    def digit_of(self, ch):
        from . import text
        return text.digit(ch)

    def skeleton(self, s):
        """the text with an arbitrary digit in the place of symbolic ones"""
        from . import text
        return text.skeleton(s)

    def quat(self, name, pick=None):
        """arbitrary unit quaternion"""
        vals = self._val(name) or [None] * 4
        q = [self.ctx.base_real("%s.%s" % (name, k), vals[i]) for i, k in enumerate("xyzs")]
        x, y, z, s = q
        (m, _), = s.n.items()
        self.ctx.ring.add_rule(m[0][0], (1 - x * x - y * y - z * z).n)
        e = self._rawsq(q) == 1
        self.ctx.cons.append((self._sumsq_z(q), e_vs(q), None))
        self.inputs.append((name, "quat", q))
        return _arr([s, x, y, z])

    def unit(self, name):
        vals = self._val(name) or [None] * 3
        q = [self.ctx.base_real("%s.%s" % (name, k), vals[i]) for i, k in enumerate("xyz")]
        x, y, z = q
        (m, _), = z.n.items()
        self.ctx.ring.add_rule(m[0][0], (1 - x * x - y * y).n)
        self.ctx.cons.append((self._sumsq_z(q), e_vs(q), None))
        self.inputs.append((name, "unit", q))
        return _arr(q)

    def _rawsq(self, q):
        s = S.ZERO
        for x in q:
            s = s + x * x
        return s

    def _sumsq_z(self, q):
        return z3.Sum(*[self.ctx.zpoly(x.n) * self.ctx.zpoly(x.n) for x in q]) == 1

    def angle(self, name, lo=None, hi=None, div=2, pick=None):
        """an angle = div * h with (cos h, sin h) an arbitrary point of the circle"""
        val = self._val(name)
        hv = self.ctx.new_var(name + "/%d" % div, "real", None if val is None else val / div)
        hv.base = True
        h = self.ctx.sym(hv)
        m = ((hv.id, 1),)
        vc = self.ctx.new_var("cos(%s)" % hv.name, num=lambda: math.cos(val / div))
        vs = self.ctx.new_var("sin(%s)" % hv.name, num=lambda: math.sin(val / div))
        self.ctx.ring.add_rule(vs.id, P.sub(P.ONE, {((vc.id, 2),): 1}))
        self.ctx.cons.append((vs.z * vs.z + vc.z * vc.z == 1, frozenset([vs.id, vc.id]), None))
        vc.partials = ("cos", m, 1, vs.id)
        vs.partials = ("sin", m, 1, vc.id)
        self.ctx.trigs[m] = {1: (self.ctx.sym(vc), self.ctx.sym(vs))}
        x = h * div
        self.inputs.append((name, "angle", (self.ctx.sym(vc), self.ctx.sym(vs), h, div, lo, hi)))
        if lo is not None and hi is not None:
            # signs of sine and cosine that follow from the range of the angle
            a, b = approx(lo) / div, approx(hi) / div
            for k in range(-12, 13):
                for var, off in ((vs, 0.0), (vc, -math.pi / 2)):
                    if k * math.pi + off <= a + 1e-12 and b - 1e-12 <= (k + 1) * math.pi + off:
                        inner = k * math.pi + off < a - 1e-9 and b + 1e-9 < (k + 1) * math.pi + off
                        z = var.z if k % 2 == 0 else -var.z
                        self.ctx.cons.append((z > 0 if inner else z >= 0, frozenset([var.id]), None))
        if lo is not None:
            c = x >= lo
            self.ctx.cons.append((c.z, c.vs, None))
        if hi is not None:
            c = x <= hi
            self.ctx.cons.append((c.z, c.vs, None))
        return x

    def choose(self, name, options):
        options = list(options)
        if self.ctx.env is not None:
            k = self.ctx.env[name]
        else:
            k = self.ctx.choose(len(options))
        self.choices[name] = k
        return options[k]

    # -- logic
    def assume(self, cond):
        for c in S._flat([cond]):
            if isinstance(c, SymBool):
                if self.ctx.env is not None:
                    if not c.f():
                        raise Infeasible()
                self.ctx.cons.append((c.z, c.vs, None))
                if c.eqn is not None and c.eqn[1]:
                    self.ctx.span_add(c.eqn[0])
                    self.ctx.learn(c.eqn[0])
                if c.rel is not None:
                    self.ctx.bound_note(*c.rel, True)
            elif not c:
                raise Infeasible()

    def check_feasible(self):
        """prune the path when its assumptions are contradictory"""
        if self.ctx.env is None and self.ctx.pos >= len(self.ctx.decisions):
            zs = [c[0] for c in self.ctx.cons]
            r, _ = self.ctx.raw_solve(zs, 3000, self._ints(zs))
            if r == "unsat":
                raise Infeasible()

    def _ints(self, zs):
        return any(v.kind == "int" for v in self.ctx.vars)

    def all(self, *xs):
        return S.sb_and(*xs)

    def any(self, *xs):
        return S.sb_or(*xs)

    def no(self, x):
        return S.sb_not(x)

    def implies(self, a, b):
        return S.sb_or(S.sb_not(a), b)

    def iff(self, a, b):
        return S.sb_and(S.sb_or(S.sb_not(a), b), S.sb_or(S.sb_not(b), a))

    # -- obligations
    def prove(self, name, cond, margin=None, obs=None):
        if self.ctx.env is not None:
            v = bool(cond.f()) if isinstance(cond, SymBool) else bool(cond)
            self._record(name, v)
            return
        self.ex.obligation(self, name, cond, margin)

    def eq(self, name, a, b, tol=1e-6):
        A, B, shape = _pair(a, b)
        if A is None:
            if self.ctx.env is not None:
                self._record(name + ":shape", False)
                return
            self.ex.obligation(self, name + ":shape", False, None)
            return
        for i, (x, y) in enumerate(zip(A, B)):
            nm = name if shape == () else "%s[%s]" % (name, ",".join(map(str, np.unravel_index(i, shape))))
            if self.ctx.env is not None:
                self._record(nm, self._numv(x))
                continue
            xi = isinstance(x, float) and not math.isfinite(x)
            yi = isinstance(y, float) and not math.isfinite(y)
            if xi or yi:
                self.ex.obligation(self, nm, x == y, None)
                continue
            d = lift(x) - lift(y)
            c = d == 0
            m = None
            if isinstance(c, SymBool):
                eps = Fraction(1, 1000)
                m = S.sb_or(d > eps, d < -eps)
            self.ex.obligation(self, nm, c, m)

    def _numv(self, x):
        if isinstance(x, float) and not math.isfinite(x):
            return x
        return self.ctx.num_eval(x)

    def _record(self, name, v):
        self.obs[name] = v

    def le(self, name, a, b, tol=1e-7):
        A, B, shape = _pair(a, b)
        for i, (x, y) in enumerate(zip(A, B)):
            nm = name if shape == () else "%s[%s]" % (name, ",".join(map(str, np.unravel_index(i, shape))))
            if self.ctx.env is not None:
                self._record(nm, self._numv(x))
                continue
            c = x <= y if not (isinstance(x, float) and math.isinf(x)) else (y >= x)
            m = None
            if isinstance(c, SymBool):
                m = lift(x) - lift(y) > Fraction(1, 1000)
            self.ex.obligation(self, nm, c, m)

    def ge(self, name, a, b, tol=1e-7):
        self.le(name, b, a, tol)

    def lemma_eq(self, name, a, b):
        """prove a == b, then use it as a fact"""
        self.eq(name, a, b)
        A, B, _ = _pair(a, b)
        for x, y in zip(A, B):
            c = lift(x) == lift(y)
            if isinstance(c, SymBool):
                self.ctx.cons.append((c.z, c.vs, None))
                if c.eqn is not None and c.eqn[1]:
                    self.ctx.span_add(c.eqn[0])

    def observe(self, name, a):
        """cross-validate a value without asserting anything about it"""
        if self.ctx.env is not None:
            A = np.asarray(a, dtype=object).reshape(-1)
            for i, x in enumerate(A):
                if isinstance(x, (Sym, int, float)):
                    self._record("%s.%d" % (name, i), self._numv(x))

    def deriv(self, f, xs, tol=None):
        """(value, jacobian list): jacobian[k] = d f / d xs[k]; xs are input scalars"""
        val = f(list(xs))
        flat = np.asarray(val, dtype=object)
        out = []
        for x in xs:
            cache = {}
            d = np.empty(flat.shape, dtype=object)
            for i in np.ndindex(*flat.shape):
                d[i] = self.ctx.diff(flat[i], x, cache)
            out.append(shim._wrap(d))
        return val, out

    def fail(self, name):
        self.prove(name, False)

    def number(self, text):
        """the value a printed number denotes"""
        return self.ctx.tokens[int(text[1:-1])] if text.startswith("\u27e8") else S.lift(Fraction(text))

    def axiom(self, cond):
        """a fact guaranteed by a trusted library routine (its contract)"""
        if self.ctx.env is None:
            for c in S._flat([cond]):
                if isinstance(c, SymBool):
                    self.ctx.cons.append((c.z, c.vs, None))
                    if c.eqn is not None and c.eqn[1]:
                        self.ctx.span_add(c.eqn[0])
                elif not c:
                    raise Infeasible()

    @property
    def numeric(self):
        return self.ctx.env is not None

    def stub(self, where, name, fn, real=False):
        where.hooks[name] = fn

    def patch_lib(self, modname, attr, fn):
        """replace one function of a library module, in symbolic and real runs alike"""
        setattr(self.loader.stubs[modname], attr, fn)

    def patch(self, obj, attr, fn):
        """replace a function of the code under test by a stand-in, in symbolic and real runs alike"""
        setattr(obj, attr, adapt(getattr(obj, attr), fn))

    SymBool = SymBool

    def fresh(self, name, nonneg=False, num=None):
        v = self.ctx.new_var(name, "real", num, nonneg=nonneg)
        v.partials = {}
        v.stub = True
        return self.ctx.sym(v)


def e_vs(q):
    vs = set()
    for x in q:
        vs |= P.variables(x.n)
    return frozenset(vs)


def _arr(x):
    a = np.array(x, dtype=object)
    return a.view(SArr)


def _pair(a, b):
    A = np.asarray(a, dtype=object)
    B = np.asarray(b, dtype=object)
    if A.shape != B.shape:
        if B.ndim == 0 or A.ndim == 0:
            A, B = np.broadcast_arrays(A, B)
        else:
            return None, None, None
    return list(A.reshape(-1)), list(B.reshape(-1)), A.shape


# =========================================================================== real mode
class RealCase:
    sym = False

    @property
    def thorough(self):
        return THOROUGH

    def __init__(self, values=None, rng=None, opts=None):
        self.values = values
        self.rng = rng
        self.np = np
        self.rec = {} if values is None else values
        self.obs = {}
        self.failures = []
        self.opts = opts or {}
        self.ts = self.opts.get("tolscale", 1.0)
        self.pi = math.pi
        self.reached = 0
        self.undo = []

    def mod(self, name):
        return real_module(name)

    def array(self, x):
        return np.array(x, dtype=np.float64)

    def iarray(self, x):
        return np.array(x, dtype=int)

    def _get(self, name, gen):
        if self.values is not None and name in self.values:
            return self.values[name]
        if self.rng is None:
            raise Infeasible()
        v = gen()
        self.rec[name] = v
        return v

    def real(self, name, lo=None, hi=None, pick=None):
        if pick is not None:
            return float(self._get(name, lambda: self.rng.choice(list(pick))))
        a = -2.0 if lo is None else lo
        b = 2.0 if hi is None else hi
        if lo is not None and hi is None:
            b = max(a + 2.0, 2.0)
        if hi is not None and lo is None:
            a = min(b - 2.0, -2.0)
        if self.rng is not None and self.opts.get("nice"):
            return float(self._get(name, lambda: float(min(max(round(self.rng.uniform(a, b) * 2) / 2, a), b))))
        return float(self._get(name, lambda: self.rng.uniform(float(a), float(b))))

    def pos(self, name, hi=None, pick=None):
        return float(self._get(name, lambda: self.rng.choice(list(pick)) if pick else self.rng.uniform(0.1, 2.0 if hi is None else hi)))

    def vec(self, name, n=3, lo=None, hi=None):
        return np.array([self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)])

    def mat(self, name, n=3, m=3, lo=None, hi=None):
        return np.array([[self.real("%s[%d,%d]" % (name, i, j), lo, hi) for j in range(m)] for i in range(n)])

    def integer(self, name, lo, hi):
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def digit(self, name):
        return str(self.integer(name, 0, 9))

    def float_of(self, s):
        return float(s)

    def digit_of(self, ch):
        return int(ch)

    def skeleton(self, s):
        return s

    def quat(self, name, pick=None):
        def gen():
            if pick is not None:
                return list(self.rng.choice(list(pick)))
            v = [self.rng.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(x * x for x in v))
            return [x / n for x in v]
        x, y, z, s = self._get(name, gen)
        n = math.sqrt(x * x + y * y + z * z + s * s)
        return np.array([s / n, x / n, y / n, z / n])

    def unit(self, name):
        def gen():
            v = [self.rng.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            return [x / n for x in v]
        v = np.array(self._get(name, gen), dtype=float)
        return v / np.sqrt((v * v).sum())

    def angle(self, name, lo=None, hi=None, div=2, pick=None):
        if pick is not None:
            return float(self._get(name, lambda: self.rng.choice(list(pick))))
        a = -3.0 if lo is None else float(lo)
        b = 3.0 if hi is None else float(hi)
        r = float(self._get(name, lambda: self.rng.uniform(a, b)))
        if (lo is not None and r < a - 1e-6) or (hi is not None and r > b + 1e-6):
            raise Infeasible()
        return r

    def choose(self, name, options):
        options = list(options)
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[int(k)]

    def assume(self, cond):
        for c in S._flat([cond]):
            if not c:
                raise Infeasible()

    def check_feasible(self):
        pass

    def all(self, *xs):
        return all(bool(x) for x in S._flat(xs))

    def any(self, *xs):
        return any(bool(x) for x in S._flat(xs))

    def no(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def prove(self, name, cond, margin=None):
        self.reached += 1
        self.obs[name] = bool(cond)
        if not cond:
            self.failures.append("%s: condition is false" % name)

    def eq(self, name, a, b, tol=1e-6):
        tol = max(tol, self.opts.get("tol", 0))
        self.reached += 1
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape and A.ndim and B.ndim:
            self.obs[name + ":shape"] = False
            self.failures.append("%s: shapes %s and %s differ" % (name, A.shape, B.shape))
            return
        A, B = np.broadcast_arrays(A, B)
        scale = 1.0 + max([abs(float(x)) for x in A.reshape(-1) if np.isfinite(float(x))] + [0.0]) * 1.0
        for i in np.ndindex(*A.shape):
            nm = name if A.shape == () else "%s[%s]" % (name, ",".join(map(str, i)))
            try:
                x, y = float(A[i]), float(B[i])
            except (TypeError, ValueError):
                self.failures.append("%s: not a number: %r vs %r" % (nm, A[i], B[i]))
                continue
            self.obs[nm] = x
            if x == y:
                continue
            if not (abs(x - y) <= tol * self.ts * scale):
                self.failures.append("%s: %r != %r" % (nm, x, y))

    def le(self, name, a, b, tol=1e-7):
        self.reached += 1
        A, B = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        for i in np.ndindex(*A.shape):
            nm = name if A.shape == () else "%s[%s]" % (name, ",".join(map(str, i)))
            x, y = float(A[i]), float(B[i])
            self.obs[nm] = x
            if not (x <= y + tol * self.ts * (1 + (abs(x) if math.isfinite(x) else 0) + (abs(y) if math.isfinite(y) else 0))):
                self.failures.append("%s: %r > %r" % (nm, x, y))

    def ge(self, name, a, b, tol=1e-7):
        self.le(name, b, a, tol)

    def lemma_eq(self, name, a, b):
        self.eq(name, a, b)

    def observe(self, name, a):
        A = np.asarray(a, dtype=object).reshape(-1)
        for i, x in enumerate(A):
            try:
                self.obs["%s.%d" % (name, i)] = float(x)
            except (TypeError, ValueError):
                pass

    def deriv(self, f, xs, tol=None):
        xs = [float(x) for x in xs]
        val = f(list(xs))
        out = []
        h = 1e-5
        for k in range(len(xs)):
            a = list(xs)
            b = list(xs)
            a[k] += h
            b[k] -= h
            fa, fb = np.array(f(a), dtype=float), np.array(f(b), dtype=float)
            a[k] += h
            b[k] -= h
            fa2, fb2 = np.array(f(a), dtype=float), np.array(f(b), dtype=float)
            d = (8 * (fa - fb) - (fa2 - fb2)) / (12 * h)
            out.append(d if d.ndim else float(d))
        return val, out

    def fail(self, name):
        self.prove(name, False)

    def number(self, text):
        return float(text)

    def axiom(self, cond):
        pass

    numeric = True

    def stub(self, where, name, fn, real=False):
        """library stand-ins act in the symbolic modes only, unless real=True (then undone after the run)"""
        if real:
            self.undo.append((where, name, getattr(where, name)))
            setattr(where, name, fn)


    def patch(self, obj, attr, fn):
        self.undo.append((obj, attr, getattr(obj, attr)))
        setattr(obj, attr, adapt(getattr(obj, attr), fn))

    def patch_lib(self, modname, attr, fn):
        m = importlib.import_module(modname)
        self.undo.append((m, attr, getattr(m, attr)))
        setattr(m, attr, fn)


_REAL = {}


def adapt(orig, fn):
    """fn called like orig: arguments passed by keyword reach the stand-in in the order of the real signature"""
    if not inspect.isfunction(orig):
        orig = vars(orig).get("py_func", orig) if hasattr(orig, "__dict__") else getattr(orig, "py_func", orig)
    if not (inspect.isfunction(orig) and inspect.isfunction(fn)):
        return fn
    real, mine = inspect.signature(orig), inspect.signature(fn)

    @functools.wraps(fn)
    def call(*a, **k):
        if k:
            try:
                mine.bind(*a, **k)
            except TypeError:
                b = real.bind(*a, **k)
                b.apply_defaults()
                a, k = b.args, b.kwargs
                while a:
                    try:
                        mine.bind(*a, **k)
                        break
                    except TypeError:
                        a = a[:-1]
        return fn(*a, **k)
    call.__signature__ = real            # a later stand-in for the same function sees the real one
    return call


def real_module(name):
    if shim.REPO not in sys.path:
        sys.path.insert(0, shim.REPO)
    return importlib.import_module(name)


# =========================================================================== explorer
class Result:
    def __init__(self):
        self.status = "ok"
        self.message = ""
        self.paths = 0
        self.obligations = 0
        self.closed_nf = 0
        self.closed_solver = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_branches = 0
        self.assumed_nonzero = 0
        self.validated = 0
        self.violation = None
        self.samples = []
        self.wall = 0.0
        self.notes = []

    def as_dict(self):
        return dict(self.__dict__)


class Explorer:
    def __init__(self, h, seed=1, tier="quick", stubs=None):
        self.h = h
        self.opts = dict(h.opts)
        self.tier = tier
        if tier == "thorough":
            self.opts.update(self.opts.get("thorough", {}))
        self.seed = seed
        self.res = Result()
        self.stats = E.Stats()
        self.t_prove = self.opts.get("t_prove", 20000)
        self.loader = shim.Loader(self._stubs())
        self.failed_samples = []

    def _stubs(self):
        from . import stubs
        return stubs.default_stubs()

    # -------------------------------------------------- running
    def run(self):
        t0 = time.time()
        try:
            self.cross_validate(self.opts.get("validate", 3))
            self.explore()
            if self.res.status == "ok" and self.failed_samples:
                self.pin_failed_sample()
        except Violation as v:
            self.res.status = "violation"
            self.res.violation = dict(what=v.what, values=v.values)
        except (Unsupported, P.TooBig, RecursionError) as e:
            self._inconclusive(e)
        except Exception as e:
            self._inconclusive(e)
        if self.res.status == "inconclusive":
            self.concrete_witness()
        r = self.res
        r.queries, r.solver_s = self.stats.queries, self.stats.solver_s
        r.unknown_branches = self.stats.unknown_branches
        r.decisions = self.stats.branches
        r.assumed_nonzero = self.stats.assumed_nonzero
        r.wall = time.time() - t0
        return r

    def concrete_witness(self):
        """A concrete input on which the real code clearly fails the harness (far beyond rounding), met while
        validating the encoding: reported even when the solver could not rebuild it on a symbolic path."""
        vals = [x[0] for x in self.failed_samples]
        try:
            if not vals:
                vals = self.fuzz_failures()
        except Exception:
            pass
        for v in vals:
            rc = RealCase(dict(v), None, dict(self.opts, tolscale=1000.0))
            try:
                bad, what = run_real(self.h, rc)
            except Exception:
                continue
            if bad:
                self.res.status = "violation"
                self.res.violation = dict(what="%s (concrete witness; symbolic side: %s)" % (what, self.res.message.split("\n")[0]), values=v)
                return

    def _inconclusive(self, e):
        self.res.status = "inconclusive"
        self.res.message = "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-3500:]))

    def explore(self):
        decisions = []
        limit = self.opts.get("max_paths", 4000)
        deadline = time.time() + self.opts.get("time", 600)
        completed = 0
        while True:
            ctx = E.Ctx(self.stats, decisions, None, self.opts)
            S.CTX = ctx
            case = SymCase(ctx, self.loader, self.h, self)
            NP.linalg.hooks = {}
            NP.random.hooks = {}
            try:
                self.h.fn(case)
                completed += not ctx.dead
            except Infeasible:
                pass
            except PathAbort:
                completed += 1
            except (Unsupported, P.TooBig, RecursionError, Violation):
                raise
            except Exception as e:
                completed += 1
                if not ctx.dead:
                    self.code_exception(case, e)
            finally:
                S.CTX = None
            self.res.paths += 1
            while decisions and not decisions[-1][1]:
                decisions.pop()
            if not decisions:
                break
            last = decisions[-1]
            last[0] = not last[0]
            last[1] = False
            if self.res.paths >= limit:
                raise Unsupported("more than %d paths" % limit)
            if time.time() > deadline:
                raise Unsupported("time limit while exploring (%d paths)" % self.res.paths)
        if completed == 0 and not self.opts.get("may_be_empty"):
            raise Unsupported("vacuous: no feasible path")
        if self.res.validated == 0 and not self.opts.get("no_validate"):
            raise Unsupported("vacuity guard: no concrete input reached the assertions")

    def code_exception(self, case, e):
        """the code under test raised: a violation if the path is feasible and it reproduces"""
        self.res.obligations += 1
        what = "unexpected %s: %s" % (type(e).__name__, e)
        tb = traceback.format_exc()
        r = self.refute(case, what, z3.BoolVal(True), set(), None)
        if r == "unsat":
            self.res.closed_solver += 1
            return
        raise Unsupported("%s on a path that could not be confirmed or excluded\n%s" % (what, tb[-1500:]))

    # -------------------------------------------------- obligations
    def obligation(self, case, name, cond, margin):
        self.res.obligations += 1
        if len(self.res.samples) < 6 and self.res.obligations % 7 == 1:
            self.res.samples.append("%s/%s path#%d %s" % (self.h.name, name, self.res.paths, "NF" if cond is True else "query"))
        if cond is True or cond is np.True_ or (isinstance(cond, (bool, np.bool_)) and cond):
            self.res.closed_nf += 1
            return
        if isinstance(cond, SymBool):
            neg = z3.Not(cond.z)
            if z3.is_true(z3.simplify(cond.z)) or (cond.eqn is not None and cond.eqn[1] and case.ctx.in_span(cond.eqn[0])):
                self.res.closed_nf += 1
                return
            vs = cond.vs
        else:
            neg = z3.BoolVal(True)
            vs = set()
        r = self.refute(case, name, neg, vs, margin)
        if r == "unsat":
            self.res.closed_solver += 1
            return
        raise Unsupported("obligation %s: %s" % (name, r))

    def refute(self, case, name, neg, vs, margin):
        """'unsat' if the negation is impossible; raises Violation if a counterexample replays; else a reason."""
        ctx = case.ctx
        hint = self.opts.get("hint_timeout", 1500)
        ints = any(v.kind == "int" for v in ctx.vars)
        if vs:
            for mode, t in ((0, hint), (1, hint)):
                r, _ = ctx.query([neg], vs, t, mode)
                if r == "unsat":
                    return "unsat"
        allc = [c[0] for c in ctx.cons]
        bounds = self._input_bounds(case)
        tried = 0
        unrep = None
        mz = [margin.z] if isinstance(margin, SymBool) else []

        def attempt(extra, t):
            nonlocal unrep
            r, m = ctx.raw_solve(allc + [neg] + extra, t, ints, True)
            if r == "sat":
                vals = self.extract(case, m)
                ok, what = self.replay(vals)
                if ok:
                    raise Violation("%s :: %s" % (name, what), vals)
                unrep = vals
            return r
        for extra in ([mz + bounds] if mz else []) + [bounds, []]:
            r = attempt(extra, hint * 2)
            tried += 1
            if r == "unsat" and not extra:
                return "unsat"
            if r == "sat" and not extra:
                break
        for k in range(2):
            self.pinned(case, attempt, mz, k)
        self.path_witnesses(case, neg, vs, 3)
        # long attempt at the proof
        if vs:
            for mode in (0, 1):
                r, _ = ctx.query([neg], vs, self.t_prove, mode)
                if r == "unsat":
                    return "unsat"
        r = attempt([], self.t_prove)
        if r == "unsat":
            return "unsat"
        for k in range(2, 12):
            self.pinned(case, attempt, mz, k)
        self.path_witnesses(case, neg, vs, 10, 3)
        # pin to concrete samples on which the real code fails
        for vals in self.fuzz_failures():
            pins = self.pins_from_values(case, vals)
            attempt(pins, 3000)
        if unrep is not None:
            return "counterexample does not reproduce on the real code: %s" % json.dumps(unrep)[:600]
        return "solver answered unknown"

    def path_witnesses(self, case, neg, vs, n, start=0):
        """Leave out what the stand-ins promise about their results (eigenvectors and the like make the full query
        hard), solve for inputs that take this path and let the real code decide."""
        ctx = case.ctx
        stub = {v.id for v in ctx.vars if v.stub}
        if not stub:
            return
        cons = [c[0] for c in ctx.cons if not (stub & set(c[1]))]
        if not (stub & set(vs)):
            cons = cons + [neg]
        ints = any(v.kind == "int" for v in ctx.vars)
        for k in range(start, start + n):
            rng = random.Random(self.seed * 77 + k)
            pins = []
            for name, kind, data in case.inputs:
                if rng.random() < (0.0, 0.8, 0.6, 0.4)[k % 4]:
                    pins += self.pin_one(case, kind, data, rng)
            r, m = ctx.raw_solve(cons + pins, 1500, ints, True)
            if r == "sat":
                vals = self.extract(case, m)
                ok, what = self.replay(vals)
                if ok:
                    raise Violation("%s (inputs that take the same path)" % what, vals)

    def fuzz_failures(self):
        if not hasattr(self, "_fuzz"):
            self._fuzz = []
            rng = random.Random(self.seed + 99)
            t0 = time.time()
            n = 0
            while time.time() - t0 < 8 and n < 400 and len(self._fuzz) < 5:
                n += 1
                rc = RealCase(None, rng, dict(self.opts, nice=(n % 2 == 0)))
                bad, _ = run_real(self.h, rc)
                if bad:
                    self._fuzz.append(dict(rc.rec))
        return self._fuzz

    def pin_failed_sample(self):
        raise Unsupported("the real code fails the harness on a concrete input, yet no path was refuted: %s :: %s"
                          % (self.failed_samples[0][1], json.dumps(self.failed_samples[0][0])[:500]))

    def _input_bounds(self, case):
        out = []
        for name, kind, data in case.inputs:
            if kind in ("real", "pos"):
                z = case.ctx.zsym(data[0])
                out += [z <= 50, z >= -50]
                if kind == "pos":
                    out.append(z > z3.Q(1, 100))
        return out

    def pinned(self, case, attempt, mz, k):
        rng = random.Random(self.seed * 1000 + k)
        pins = []
        frac = 0.5 if k % 3 == 1 else 1.0
        for name, kind, data in case.inputs:
            if rng.random() > frac:
                continue
            pins += self.pin_one(case, kind, data, rng)
        r = attempt(mz + pins if k % 2 == 0 else pins, 2000)

    def pin_one(self, case, kind, data, rng):
        z = case.ctx.zsym
        if kind in ("real", "pos"):
            v, lo, hi = data
            a = -2 if lo is None else lo
            b = 2 if hi is None else hi
            if lo is not None and hi is None:
                b = max(float(a) + 2, 2)
            val = Fraction(rng.uniform(float(a), float(b))).limit_denominator(8)
            if kind == "pos" and val <= 0:
                val = Fraction(1, 8)
            return [z(v) == z3.Q(val.numerator, val.denominator)]
        if kind == "int":
            v, lo, hi = data
            return [z(v) == rng.randint(lo, hi)]
        if kind in ("quat", "unit"):
            n = len(data)
            t = [Fraction(rng.randint(-4, 4), rng.randint(1, 4)) for _ in range(n - 1)]
            s = sum(x * x for x in t)
            vals = [2 * x / (1 + s) for x in t] + [(1 - s) / (1 + s)]
            return [z(x) == z3.Q(f.numerator, f.denominator) for x, f in zip(data, vals)]
        if kind == "angle":
            c, s = data[0], data[1]
            t = Fraction(rng.randint(-6, 6), rng.randint(1, 5))
            cv, sv = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            return [z(c) == z3.Q(cv.numerator, cv.denominator), z(s) == z3.Q(sv.numerator, sv.denominator)]
        return []

    def pins_from_values(self, case, vals):
        z = case.ctx.zsym
        out = []
        for name, kind, data in case.inputs:
            if name not in vals:
                continue
            v = vals[name]
            if kind in ("real", "pos"):
                f = Fraction(v).limit_denominator(10 ** 6)
                out.append(z(data[0]) == z3.Q(f.numerator, f.denominator))
            elif kind == "int":
                out.append(z(data[0]) == int(v))
            elif kind in ("quat", "unit"):
                # rational point near v by stereographic projection
                w = [Fraction(x).limit_denominator(1000) for x in v]
                if abs(1 + v[-1]) > 1e-3:
                    t = [x / (1 + w[-1]) for x in w[:-1]]
                    s = sum(x * x for x in t)
                    p = [2 * x / (1 + s) for x in t] + [(1 - s) / (1 + s)]
                    out += [z(x) == z3.Q(f.numerator, f.denominator) for x, f in zip(data, p)]
            elif kind == "angle":
                h = v / data[3]
                t = Fraction(math.tan(h / 2)).limit_denominator(1000)
                cv, sv = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                out += [z(data[0]) == z3.Q(cv.numerator, cv.denominator), z(data[1]) == z3.Q(sv.numerator, sv.denominator)]
        return out

    # -------------------------------------------------- models and replay
    def extract(self, case, m):
        vals = dict(case.choices)

        def num(x):
            z = case.ctx.zsym(x)
            v = m.eval(z, model_completion=True)
            return znum(v)
        for name, kind, data in case.inputs:
            if kind in ("real", "pos"):
                vals[name] = num(data[0])
            elif kind == "int":
                vals[name] = int(round(num(data[0])))
            elif kind in ("quat", "unit"):
                vals[name] = [num(x) for x in data]
            elif kind == "angle":
                c, s, h, div, lo, hi = data
                a = div * math.atan2(num(s), num(c))
                per = 2 * math.pi * div
                if lo is not None:
                    while a < approx(lo) - 1e-9:
                        a += per
                if hi is not None:
                    while a > approx(hi) + 1e-9:
                        a -= per
                vals[name] = a
        return vals

    def replay(self, vals):
        rc = RealCase(dict(vals), None, self.opts)
        bad, what = run_real(self.h, rc)
        return bad, what

    # -------------------------------------------------- cross validation
    def cross_validate(self, n):
        rng = random.Random(self.seed)
        done = tries = 0
        while done < n and tries < self.opts.get("validate_tries", 300):
            tries += 1
            rc = RealCase(None, rng, self.opts)
            try:
                bad, what = run_real(self.h, rc)
            except Infeasible:
                continue
            if bad is None:
                continue
            if bad:
                self.failed_samples.append((dict(rc.rec), what))
                if len(self.failed_samples) > 3:
                    return
                continue
            if rc.reached == 0:
                continue
            vals = dict(rc.rec)
            ctx = E.Ctx(self.stats, [], vals, self.opts)
            S.CTX = ctx
            case = SymCase(ctx, self.loader, self.h, self)
            NP.linalg.hooks = {}
            NP.random.hooks = {}
            try:
                self.h.fn(case)
            except Infeasible:
                continue
            except PathAbort:
                pass
            finally:
                S.CTX = None
            for k, v in case.obs.items():
                if k not in rc.obs:
                    continue
                w = rc.obs[k]
                if isinstance(v, bool):
                    same = v == bool(w)
                else:
                    same = (v == w) or abs(v - w) <= self.opts.get("xtol", 1e-5) * (1 + abs(w))
                if not same:
                    raise Unsupported("encoding disagrees with the real code on %s: %r vs %r at %s"
                                      % (k, v, w, json.dumps(vals)[:800]))
            done += 1
        self.res.validated = done


def approx(x):
    """numeric value of a bound that may involve pi"""
    if isinstance(x, Sym):
        t = 0.0
        for m, q in x.n.items():
            for v, e in m:
                assert S.CTX._pi is not None and v == S.CTX._pi.id
            t += float(q) * math.pi ** sum(e for _, e in m)
        return t
    return float(x)


def znum(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return float(str(v.as_decimal(20)).rstrip("?"))


def run_real(h, rc):
    """(True, what) assertion failed; (False, '') all held; (None, why) outside the assumptions"""
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    h.fn(rc)
                except Infeasible:
                    if rc.failures:
                        return True, "; ".join(rc.failures[:3])
                    return None, "assumptions"
                except PathAbort:
                    pass
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = ["%s:%d" % (os.path.relpath(f.filename, shim.REPO), f.lineno) for f in tb if f.filename.startswith(shim.REPO)]
                    if not loc:
                        # numba-compiled code has no python frames; accept if the exception is a numeric/domain one
                        if isinstance(e, (ZeroDivisionError, ValueError, IndexError, np.linalg.LinAlgError, KeyError, AttributeError, TypeError)) and not _own_frame(tb):
                            return True, "raised %s: %s" % (type(e).__name__, e)
                        raise
                    return True, "raised %s: %s at %s" % (type(e).__name__, e, loc[-1])
    finally:
        for where, name, fn in reversed(rc.undo):
            setattr(where, name, fn)
        sys.stdout = old
        devnull.close()
    if rc.failures:
        return True, "; ".join(rc.failures[:3])
    return False, ""


def _own_frame(tb):
    return tb and "/checks/" in tb[-1].filename and False
