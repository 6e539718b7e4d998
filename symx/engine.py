"""Symbolic execution context: variables, axioms, path forking, solver queries."""
import math
import time
from fractions import Fraction

from . import poly as P
from . import sym as S
from .sym import Sym, SymBool, Unsupported, Infeasible, PathAbort, lift, ZERO, ONE, z3, to_fraction
from math import gcd


class SymZeroDivision(ZeroDivisionError):
    pass


class SymDomainError(ValueError):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown_branches = 0
        self.branches = 0
        self.paths = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.assumed_nonzero = 0


def lcm(a, b):
    return a * b // gcd(a, b)


class Ctx:
    def __init__(self, stats, decisions, env=None, opts=None):
        self.tokens = []
        self.dead = False
        self.stats = stats
        self.opts = opts or {}
        self.vars = []
        self.names = {}
        self.ring = P.Ring()
        self.factors = []
        self.fkey = {}
        self.fpos = {}
        self.fnonzero = set()
        self.fpow = {}
        self.cons = []          # (z, vs, defvar or None)
        self.decisions = decisions
        self.pos = 0
        self.memo = {}
        self.zcache = {}
        self.bmemo = {}
        self.keep = []
        self.env = env          # base input name -> float, for cross-validation runs
        self.num = {}           # var id -> float
        self.inputs = []
        self.trigs = {}         # monomial -> {div: (c, s)}
        self.sqrts = []         # (poly, r)
        self.notes = set()
        self.bounds = {}        # polynomial up to shift and scale -> interval it lies in on this path
        self.pins = {}          # variable id -> polynomial it equals on this path
        self.span = {}          # polynomials known to be zero, by leading monomial
        self.t_branch = self.opts.get("t_branch", 1500)
        self.div0 = self.opts.get("div0", "fork")
        self.minmax = self.opts.get("minmax", "fork")
        self.abs_mode = self.opts.get("abs", "fork")
        self._pi = None

    # ------------------------------------------------------------------ variables
    def new_var(self, name, kind="real", num=None, nonneg=False, partials=None):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        full = name if k == 0 else "%s#%d" % (name, k)
        z = z3.Int(full) if kind == "int" else z3.Real(full)
        v = S.VarInfo(len(self.vars), full, kind, z)
        v.nonneg = nonneg
        v.partials = partials
        self.vars.append(v)
        if self.env is not None:
            self.num[v.id] = num() if callable(num) else num
        return v

    def sym(self, v):
        return Sym(P.var(v.id))

    def base_real(self, name, num=None):
        v = self.new_var(name, "real", num)
        v.base = True
        return self.sym(v)

    @property
    def pi(self):
        if self._pi is None:
            v = self.new_var("pi", "real", math.pi)
            v.nonneg = v.positive = True
            v.partials = {}
            self.cons.append((z3.And(v.z > z3.Q(31415926, 10000000), v.z < z3.Q(31415927, 10000000)),
                              frozenset([v.id]), v.id))
            self._pi = v
        return self.sym(self._pi)

    def show(self, x):
        def pp(p):
            if not p:
                return "0"
            return " + ".join(("%s" % c) + "".join("*%s%s" % (self.vars[v].name, "^%d" % e if e > 1 else "")
                                                    for v, e in m) for m, c in list(p.items())[:8]) + (
                " + ..." if len(p) > 8 else "")
        s = pp(x.n)
        if x.d:
            s = "(%s)/%s" % (s, "".join("(%s)^%d" % (pp(self.factors[f]), e) for f, e in x.d))
        return s

    # ------------------------------------------------------------------ polynomials <-> z3
    def zpoly(self, p):
        k = P.key(p)
        r = self.zcache.get(k)
        if r is not None:
            return r
        terms = []
        for m, c in p.items():
            fs = []
            for v, e in m:
                z = self.vars[v].z
                if self.vars[v].kind == "int":
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            c = z3.Q(c.numerator, c.denominator) if isinstance(c, Fraction) else z3.RealVal(c)
            if not fs:
                terms.append(c)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(c * t)
        r = z3.Sum(*terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        self.zcache[k] = r
        return r

    def zsym(self, x):
        x = lift(x)
        n = self.zpoly(x.n)
        for f, e in x.d:
            for _ in range(e):
                n = n / self.zpoly(self.factors[f])
        return n

    def svars(self, x):
        s = set(P.variables(x.n))
        for f, _ in x.d:
            s |= P.variables(self.factors[f])
        return s

    def num_eval(self, x):
        x = lift(x)
        v = float(P.evaluate(x.n, self.num)) if x.n else 0.0
        for f, e in x.d:
            v /= P.evaluate(self.factors[f], self.num) ** e
        return v

    def num_cmp(self, x, op):
        v = self.num_eval(x)
        if op in ("==", "!="):
            return (abs(v) < 1e-12) == (op == "==")
        return S._OPS[op](v)

    # ------------------------------------------------------------------ fractions
    def factor_id(self, p):
        """p primitive: leading coeff 1, not constant."""
        k = P.key(p)
        i = self.fkey.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.fkey[k] = i
        return i

    def factor_pow(self, f, e):
        r = self.fpow.get((f, e))
        if r is None:
            r = P.ONE
            for _ in range(e):
                r = self.ring.mul(r, self.factors[f])
            self.fpow[(f, e)] = r
        return r

    def make(self, n, d):
        if not n:
            return ZERO
        if not d:
            return Sym(n)
        out = []
        for f, e in d:
            fp = self.factors[f]
            while e > 0 and len(n) <= 3000:
                q = P.exact_div(self.ring, n, fp)
                if q is None:
                    break
                n = self.ring.reduce(q)
                e -= 1
            if e:
                out.append((f, e))
        return Sym(n, tuple(out))

    def split(self, p):
        """p = c * prod var^e * rest  (rest has leading coeff 1 or is ONE)"""
        m = P.monomial_content(p)
        if m:
            p = {P.mono_div(x, m): c for x, c in p.items()}
        if len(p) == 1 and () in p:
            return p[()], m, P.ONE
        c = p[P.lead(p)]
        if c != 1:
            p = P.scale(p, Fraction(1) / c)
        return c, m, p

    def inverse(self, x):
        if not x.n:
            raise SymZeroDivision("division by zero")
        if x.is_const():
            return Sym(P.const(Fraction(1) / x.const_value()))
        c, mono, rest = self.split(x.n)
        num = P.const(Fraction(1) / Fraction(c))
        den = {}
        extra = []
        for v, e in mono:
            self.require_nonzero(P.var(v))
            rule = self.ring.rules.get(v)
            if rule is not None:
                # 1/v = v / (v^2)
                for _ in range(e):
                    num = self.ring.mul(num, P.var(v))
                    extra.append(rule)
            else:
                f = self.factor_id(P.var(v))
                den[f] = den.get(f, 0) + e
        if rest is not P.ONE and not (len(rest) == 1 and () in rest):
            self.require_nonzero(rest)
            f = self.factor_id(rest)
            den[f] = den.get(f, 0) + 1
        for r in extra:
            c2, m2, rest2 = self.split(r)
            num = P.scale(num, Fraction(1) / Fraction(c2))
            sub = ONE
            for v, e in m2:
                rule = self.ring.rules.get(v)
                f = self.factor_id(P.var(v))
                self.fnonzero.add(f)
                den[f] = den.get(f, 0) + e
            if not (len(rest2) == 1 and () in rest2):
                f = self.factor_id(rest2)
                self.fnonzero.add(f)
                den[f] = den.get(f, 0) + 1
        for f, e in x.d:
            num = self.ring.mul(num, self.factor_pow(f, e))
        return self.make(num, tuple(sorted(den.items())))

    def require_nonzero(self, p):
        f = self.factor_id(p) if p[P.lead(p)] == 1 else None
        if f is not None and f in self.fnonzero:
            return
        if self.div0 == "fork":
            if bool(S.compare0(Sym(p), "==")):
                raise SymZeroDivision("division by zero")
        else:
            c = S.compare0(Sym(p), "!=")
            if isinstance(c, SymBool):
                self.add_path(c)
                self.stats.assumed_nonzero += 1
        if f is not None:
            self.fnonzero.add(f)

    def factor_positive(self, f):
        r = self.fpos.get(f)
        if r is None:
            p = self.factors[f]
            r = self.obviously_nonneg(p)
            if not r and self.env is None and self.bound_known(p, ">="):
                r = True
            elif not r and self.env is None:
                c = S.SymBool(self.zpoly(p) < 0, frozenset(P.variables(p)), None)
                r = self.query([c.z], c.vs, 400)[0] == "unsat"
            elif not r:
                r = False
            self.fpos[f] = r
        return r

    def obviously_nonneg(self, p):
        for m, c in p.items():
            if c < 0:
                return False
            for v, e in m:
                if e & 1 and not self.vars[v].nonneg:
                    return False
        return True

    # ------------------------------------------------------------------ constraints / queries
    def add_path(self, sb):
        self.cons.append((sb.z, sb.vs, None))
        if self.env is not None and not sb.f():
            self.dead = True
            raise Infeasible()

    def define(self, v, z, vs):
        self.cons.append((z, frozenset(vs) | {v.id}, v.id))

    def relevant(self, vs, mode):
        """mode 0: definitions reachable + assumptions whose variables are all covered; 1: connected component."""
        vs = set(vs)
        rest = list(self.cons)
        out = []
        changed = True
        while changed:
            changed = False
            keep = []
            for c in rest:
                z, cv, dv = c
                if dv is not None:
                    hit = dv in vs
                elif mode == 1:
                    hit = bool(cv & vs) or not cv
                else:
                    hit = cv <= vs
                if hit:
                    out.append(z)
                    if not cv <= vs:
                        vs |= cv
                    changed = True
                else:
                    keep.append(c)
            rest = keep
        return out, vs

    def query(self, zs, vs, timeout, mode=1, want_model=False, extra=()):
        rel, allv = self.relevant(vs, mode)
        ints = any(self.vars[v].kind == "int" for v in allv)
        res, model = self.raw_solve(rel + list(zs) + list(extra), timeout, ints, want_model)
        return res, model

    def raw_solve(self, zs, timeout, ints, want_model=False):
        t0 = time.time()
        self.stats.queries += 1
        try:
            if ints:
                s = z3.Solver()
            else:
                s = z3.SolverFor("QF_NRA")
            s.set("timeout", int(timeout))
            s.add(*zs)
            r = s.check()
            m = s.model() if r == z3.sat and want_model else None
        except z3.Z3Exception as e:
            r, m = z3.unknown, None
        self.stats.solver_s += time.time() - t0
        if r == z3.sat:
            self.stats.sat += 1
            return "sat", m
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        self.stats.unknown += 1
        return "unknown", None

    # ------------------------------------------------------------------ branching
    def branch(self, sb, payload=None):
        z = sb.z
        i = z.get_id()
        if i in self.bmemo:
            return self.bmemo[i]
        zz = z3.simplify(z)
        if z3.is_true(zz):
            return True
        if z3.is_false(zz):
            return False
        j = zz.get_id()
        if j in self.bmemo:
            self.keep.append(z)
            self.bmemo[i] = self.bmemo[j]
            return self.bmemo[j]
        if self.env is not None:
            r = bool(sb.f())
        elif self.pos < len(self.decisions):
            r = self.decisions[self.pos][0]
            self.pos += 1
        else:
            self.stats.branches += 1
            r = None
            small, _ = self.relevant(sb.vs, 0)
            if len(small) < len(self.relevant(sb.vs, 1)[0]):
                # decided by the facts about the very variables of the condition?
                t = min(self.t_branch, 300)
                if self.query([z], sb.vs, t, 0)[0] == "unsat":
                    r, alt = False, False
                elif self.query([z3.Not(z)], sb.vs, t, 0)[0] == "unsat":
                    r, alt = True, False
            if r is None:
                ft, _ = self.query([z], sb.vs, self.t_branch)
                if ft == "unsat":
                    r, alt = False, False
                else:
                    ff, _ = self.query([z3.Not(z)], sb.vs, self.t_branch)
                    r = True
                    alt = ff != "unsat"
                    if "unknown" in (ft, ff):
                        self.stats.unknown_branches += 1
            self.decisions.append([r, alt])
            self.pos += 1
            if len(self.decisions) > self.opts.get("max_depth", 4000):
                raise Unsupported("path too deep")
        nz = z3.Not(z)
        self.keep.extend([z, zz, nz])
        self.bmemo[i] = r
        self.bmemo[j] = r
        self.bmemo[nz.get_id()] = not r
        self.cons.append((z if r else nz, sb.vs, None))
        if sb.eqn is not None and sb.eqn[1] == r:
            self.learn(sb.eqn[0])
        if sb.rel is not None:
            self.bound_note(*sb.rel, r)
        return r

    # ------------------------------------------------------------------ known intervals of polynomials
    @staticmethod
    def _shift_key(n):
        """n = a * (K + c0) with K normalised and without constant: (key of K, a, c0)"""
        c0 = n.get((), 0)
        m = max((k for k in n if k), key=lambda k: (len(k), k))
        a = n[m]
        if a == 1:
            return frozenset((k, v) for k, v in n.items() if k), a, c0
        return frozenset((k, Fraction(v) / a) for k, v in n.items() if k), a, Fraction(c0) / a

    def bound_note(self, n, op, holds):
        if len(n) > 3000 or not any(n):
            return
        if not holds:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        k, a, c0 = self._shift_key(n)
        if a < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        b = self.bounds.setdefault(k, [None, False, None, False])      # lo, strict, hi, strict
        v, st = -c0, op in ("<", ">")
        if op[0] == ">":
            if b[0] is None or v > b[0] or (v == b[0] and st):
                b[0], b[1] = v, st
        elif b[2] is None or v < b[2] or (v == b[2] and st):
            b[2], b[3] = v, st

    def bound_known(self, n, op):
        if not self.bounds or len(n) > 3000 or not any(n):
            return None
        if len(n) == 1:                                                  # c v with v = sqrt(p), p > 0
            (m, a), = n.items()
            p = self.vars[m[0][0]].partials if len(m) == 1 and m[0][1] == 1 else None
            if isinstance(p, tuple) and p[0] == "sqrt" and len(p[1]) > 1 and self.bound_known(p[1], ">"):
                return op in (">", ">=") if a > 0 else op in ("<", "<=")
        k, a, c0 = self._shift_key(n)
        b = self.bounds.get(k)
        if b is None:
            return None
        lo, ls, hi, hs = b
        if a < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        v = -c0                                                      # K op v ?
        if op == ">" or op == "<=":
            yes = lo is not None and (lo > v or (lo == v and ls))
            no = hi is not None and hi <= v
        else:
            yes = lo is not None and lo >= v
            no = hi is not None and (hi < v or (hi == v and hs))
        if yes:
            return op in (">", ">=")
        if no:
            return op in ("<", "<=")
        return None

    def span_add(self, n):
        """remember that the polynomial n is zero (reduced echelon basis over Q)"""
        if self.env is not None or len(n) > 2000:
            return
        for v in sorted(P.variables(n)):         # v n = 0 and v^2 = p != 0: divide by p where that is exact
            p = self.ring.rules.get(v)
            if p is None or len(p) < 2:
                continue
            _, _, rest = self.split(p)
            if self.factor_id(rest) in self.fnonzero:
                q = P.exact_div(self.ring, self.ring.mul(n, P.var(v)), rest)
                if q is not None and q:
                    self._span_add(q)
        self._span_add(n)

    def _span_add(self, n):
        n = self._span_reduce(n)
        if not n:
            return
        lead = max(n)
        k = n[lead]
        self.span[lead] = {m: P._norm(Fraction(c) / k) for m, c in n.items()}

    def _span_reduce(self, n):
        span = self.span
        while True:
            hit = None
            for m in n:
                if m in span and (hit is None or m > hit):
                    hit = m
            if hit is None:
                return n
            n = P.add(n, P.scale(span[hit], -n[hit]))

    def span_reduce(self, n):
        if len(n) > 500 or not any(m in self.span for m in n):
            return n
        return self._span_reduce(n)

    def in_span(self, n):
        """n is a rational combination of polynomials known to be zero"""
        return bool(self.span) and len(n) <= 2000 and not self._span_reduce(n)

    def learn(self, n):
        """the polynomial n is zero on this path: eliminate a variable that occurs linearly in it"""
        if self.env is not None or len(n) > 3:
            return
        n = self.apply_pins(n)
        best = None
        for m, co in n.items():
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if v in self.ring.rules or P.degree_in(n, v) > 1 or sum(1 for k in n if any(u == v for u, _ in k)) > 1:
                    continue
                if self.vars[v].kind == "int" and any(self.vars[u].kind != "int" for k in n for u, _ in k):
                    continue
                if best is None or v > best:
                    best = v
        if best is None:
            return
        key = ((best, 1),)
        co = n[key]
        rest = {m: P._norm(-Fraction(k) / co) for m, k in n.items() if m != key}
        for v in list(self.pins):
            self.pins[v] = self._subst(self.pins[v], {best: rest})
        self.pins[best] = rest

    def apply_pins(self, p):
        pins = self.pins
        for m in p:
            for v, _ in m:
                if v in pins:
                    return self._subst(p, pins)
        return p

    def _subst(self, p, pins):
        out = {}
        for m, co in p.items():
            t = {(): co}
            keep = []
            for v, e in m:
                if v in pins:
                    for _ in range(e):
                        t = self.ring.mul_raw(t, pins[v])
                else:
                    keep.append((v, e))
            if keep:
                t = self.ring.mul_raw(t, {tuple(keep): 1})
            out = P.add(out, t)
        return self.ring.reduce(out)

    def choose(self, n):
        """Nondeterministic choice among range(n) (a configuration, no solver involved)."""
        if self.env is not None:
            return self.env_choice(n)
        for k in range(n - 1):
            if self.pos < len(self.decisions):
                r = self.decisions[self.pos][0]
                self.pos += 1
            else:
                r = True
                self.decisions.append([True, True])
                self.pos += 1
            if r:
                return k
        return n - 1

    def env_choice(self, n):
        return self.env_rng.randrange(n)

    def concretize(self, x):
        if x.is_const():
            c = x.const_value()
            if isinstance(c, int):
                return c
            raise TypeError("non-integer index")
        if self.env is not None:
            return int(round(self.num_eval(x)))
        ids = sorted({v for m in x.n for v, _ in m})
        if not x.d and len(ids) > 1 and all(self.vars[v].kind == "int" for v in ids):
            # fix every integer in the expression (gives constants in the normal form)
            for v in ids:
                self.concretize(self.sym(self.vars[v]))
            x = lift(x)
            x = S.Sym(self.apply_pins(x.n))
            if x.is_const():
                return int(x.const_value())
        while True:
            if self.pos < len(self.decisions):
                val = self.decisions[self.pos][2]
            else:
                z = self.zsym(x)
                res, m = self.query([z == z], self.svars(x), 4000, want_model=True)
                if res != "sat":
                    if res == "unsat":
                        self.dead = True        # code with a bare "except:" may swallow the exception
                        raise Infeasible()
                    raise Unsupported("cannot enumerate an index")
                val = m.eval(z, model_completion=True)
                val = val.as_fraction()
                if val.denominator != 1:
                    raise Unsupported("index not integral: %s = %s where %s" % (x, val, [str(self.vars[v].name)+":"+self.vars[v].kind for v in self.svars(x)]))
                val = int(val)
                self.decisions.append([True, False, val])
            self.pos += 1
            c = (x == val)
            if isinstance(c, bool):
                if c:
                    return val
                continue
            if self.branch(c):
                return val

    # ------------------------------------------------------------------ functions
    def known_nonneg(self, x):
        if x.nn:
            return True
        if x.d:
            if not all(e % 2 == 0 or self.factor_positive(f) for f, e in x.d):
                return False
        return self.obviously_nonneg(x.n) or (self.env is None and self.bound_known(x.n, ">=") is True)

    def abs(self, x):
        if x.is_const():
            c = x.const_value()
            return x if c >= 0 else -x
        if self.known_nonneg(x):
            return x
        if self.known_nonneg(-x):
            return -x
        if self.abs_mode == "define":
            k = ("abs", P.key(x.n), x.d)
            k2 = ("abs", P.key(P.neg(x.n)), x.d)
            r = self.memo.get(k) or self.memo.get(k2)
            if r is None:
                v = self.new_var("abs", num=lambda: abs(self.num_eval(x)), nonneg=True)
                zx = self.zsym(x)
                self.define(v, z3.And(v.z >= 0, z3.Or(v.z == zx, v.z == -zx)), self.svars(x))
                r = self.sym(v)
                self.memo[k] = r
            return r
        return x if x >= 0 else -x

    def max2(self, a, b):
        c = a >= b
        if isinstance(c, bool):
            return a if c else b
        if self.minmax == "define":
            d = b - a
            k = ("max", P.key(d.n), d.d, P.key(a.n), a.d)
            r = self.memo.get(k)
            if r is None:
                v = self.new_var("max", num=lambda: max(self.num_eval(a), self.num_eval(b)))
                za, zb = self.zsym(a), self.zsym(b)
                self.define(v, z3.And(v.z >= za, v.z >= zb, z3.Or(v.z == za, v.z == zb)),
                            self.svars(a) | self.svars(b))
                r = self.sym(v)
                self.memo[k] = r
            return r
        return a if c else b

    def min2(self, a, b):
        return -self.max2(-a, -b) if self.minmax == "define" else (a if a <= b else b)

    def _const_sqrt(self, c):
        """sqrt of positive rational as (rational, squarefree int)"""
        c = Fraction(c)
        n = c.numerator * c.denominator
        q = Fraction(1, c.denominator)
        k = 2
        out = 1
        while k * k <= n and k < 2000:
            while n % (k * k) == 0:
                n //= k * k
                out *= k
            k += 1
        r = math.isqrt(n)
        if r * r == n:
            return q * out * r, 1
        return q * out, n

    def sqrt(self, x, nonneg=False):
        x = lift(x)
        if not x.n:
            return ZERO
        if x.is_const():
            c = x.const_value()
            if c < 0:
                raise SymDomainError("math domain error: sqrt of negative")
            q, sf = self._const_sqrt(c)
            if sf == 1:
                return Sym(P.const(q))
            return self._sqrt_poly(P.const(sf)) * Sym(P.const(q))
        k = ("sqrt", P.key(x.n), x.d)
        r = self.memo.get(k)
        if r is not None:
            return r
        if not nonneg and not self.known_nonneg(x):
            if bool(x < 0):
                raise SymDomainError("math domain error: sqrt of negative")
        n = x.n
        outer = ONE
        for f, e in x.d:
            if e & 1:
                n = self.ring.mul(n, self.factors[f])
                e += 1
            fs = Sym(self.factors[f])
            if (e // 2) & 1 and not self.factor_positive(f):
                fs = self.abs(fs)
            outer = outer * fs ** (e // 2)
        c, mono, rest = self.split(n)
        # sign of leading constant: keep it in the rest when negative
        res = ONE
        keepm = []
        for v, e in mono:
            if e >= 2:
                vs = self.sym(self.vars[v])
                if (e // 2) & 1 and not self.vars[v].nonneg:
                    vs = self.abs(vs)
                res = res * vs ** (e // 2)
            if e & 1:
                keepm.append((v, 1))
        body = rest
        if keepm:
            body = self.ring.mul(body, {tuple(keepm): 1})
        if c > 0:
            q, sf = self._const_sqrt(c)
            res = res * Sym(P.const(q))
            if sf != 1:
                if body == P.ONE:
                    body = P.const(sf)
                else:
                    body = P.scale(body, sf)
        else:
            body = P.scale(body, c)
        if body != P.ONE:
            res = res * self._sqrt_poly(body)
        r = res / outer if outer is not ONE else res
        self.memo[k] = r
        return r

    def _poly_sqrt_exact(self, p):
        if len(p) > 60:
            return None
        # p = q^2 ?
        l = P.lead(p)
        if any(e & 1 for _, e in l):
            return None
        c = Fraction(p[l])
        if c < 0:
            return None
        q, sf = self._const_sqrt(c)
        if sf != 1:
            return None
        root = {tuple((v, e // 2) for v, e in l): P._norm(q)}
        lead0 = P.lead(root)
        rem = P.sub(p, self.ring.mul_raw(root, root))
        for _ in range(40):
            if not rem:
                return root
            lr = P.lead(rem)
            m = P.mono_div(lr, lead0)
            if m is None:
                return None
            t = {m: P._norm(Fraction(rem[lr]) / (2 * root[lead0]))}
            new = P.add(root, t)
            if P.lead(new) != lead0:
                return None
            rem = P.sub(p, self.ring.mul_raw(new, new))
            root = new
        return None

    def _sqrt_poly(self, p):
        for q, r in self.sqrts:
            if q == p:
                return r
        e = self._poly_sqrt_exact(p)
        if e is not None:
            return self.abs(Sym(e))
        # a multiple of a known radicand?
        for q, r in self.sqrts:
            if len(q) > 1 and len(p) > len(q):
                d = P.exact_div(self.ring, p, q)
                if d is not None:
                    return r * self.sqrt(Sym(self.ring.reduce(d)))
        pv = P.variables(p)
        v = self.new_var("sqrt", num=lambda: math.sqrt(max(0.0, float(P.evaluate(p, self.num)))), nonneg=True)
        zp = self.zpoly(p)
        self.define(v, z3.And(v.z >= 0, v.z * v.z == zp), pv)
        self.ring.add_rule(v.id, p)
        v.partials = ("sqrt", p)
        r = self.sym(v)
        self.sqrts.append((p, r))
        if not pv and p.get((), 0) > 0:
            v.positive = True
            f = self.factor_id(P.var(v.id))
            self.fnonzero.add(f)
        return r

    def root(self, x, k):
        if x.is_const():
            c = Fraction(x.const_value())
            if c >= 0:
                a, b = round(c.numerator ** (1.0 / k)), round(c.denominator ** (1.0 / k))
                if a ** k == c.numerator and b ** k == c.denominator:
                    return lift(Fraction(a, b))
        key = ("root", k, P.key(x.n), x.d)
        r = self.memo.get(key)
        if r is None:
            if bool(x < 0):
                raise SymDomainError("root of negative")
            v = self.new_var("root%d" % k, num=lambda: max(0.0, self.num_eval(x)) ** (1.0 / k), nonneg=True)
            t = v.z
            for _ in range(k - 1):
                t = t * v.z
            self.define(v, z3.And(v.z >= 0, t == self.zsym(x)), self.svars(x))
            v.partials = ("root", k, x)
            r = self.sym(v)
            self.memo[key] = r
        return r

    def floor(self, x):
        x = lift(x)
        if x.is_const():
            return lift(math.floor(x.const_value()))
        if not x.d and all(all(self.vars[v].kind == "int" for v, _ in m) and isinstance(c, int) for m, c in x.n.items()):
            return x
        if not x.d:
            c0 = x.n.get((), 0)
            whole = math.floor(c0)
            if whole:
                return self.floor(x - whole) + whole
        k = ("floor", P.key(x.n), x.d)
        r = self.memo.get(k)
        if r is None:
            v = self.new_var("floor", "int", num=lambda: float(math.floor(self.num_eval(x) + 1e-12)))
            zx = self.zsym(x)
            zr = z3.ToReal(v.z)
            self.define(v, z3.And(zr <= zx, zx < zr + 1), self.svars(x))
            v.partials = {}
            r = self.sym(v)
            self.memo[k] = r
        return r

    def trunc(self, x):
        x = lift(x)
        if x.is_const():
            return lift(int(x.const_value()))
        f = self.floor(x)
        if f is x:
            return x
        if self.known_nonneg(x) or x >= 0:
            return f
        return -self.floor(-x)

    def round(self, x):
        x = lift(x)
        if x.is_const():
            return lift(round(Fraction(x.const_value())))
        return self.floor(x + Fraction(1, 2))

    # ---- trigonometry
    def _mono_sym(self, m):
        return Sym({m: 1})

    def trig(self, x):
        """(cos x, sin x)"""
        x = lift(x)
        if x.d:
            k = ("atom", P.key(x.n), x.d)
            a = self.memo.get(k)
            if a is None:
                km = ("atom", P.key(P.neg(x.n)), x.d)
                a = self.memo.get(km)
                if a is not None:
                    c, s = self.trig(a)
                    return c, -s
                v = self.new_var("ang", num=lambda: self.num_eval(x))
                self.define(v, v.z == self.zsym(x), self.svars(x))
                v.partials = ("def", x)
                a = self.sym(v)
                self.memo[k] = a
            x = a
        c, s = ONE, ZERO
        for m, q in x.n.items():
            cm, sm = self._trig_term(m, q)
            c, s = c * cm - s * sm, s * cm + c * sm
        return c, s

    def _trig_term(self, m, q):
        q = Fraction(q)
        if self._pi is not None and m and any(v == self._pi.id for v, _ in m):
            rest = tuple((v, e) for v, e in m if v != self._pi.id)
            e = dict(m)[self._pi.id]
            if e == 1 and all(self.vars[v].kind == "int" for v, _ in rest) and rest and not self.opts.get("free_angles"):
                if q.denominator == 1 and q.numerator % 2 == 0:
                    return ONE, ZERO
                n = 1
                for v, k in rest:
                    n *= self.concretize(self.sym(self.vars[v])) ** k
                return self._trig_pi(q * n)
            if e == 1 and not rest:
                return self._trig_pi(q)
        tab = self.trigs.get(m)
        if tab is None:
            tab = self.trigs[m] = {}
        # find base div k with q*k integer
        best = None
        for k in tab:
            if (q * k).denominator == 1 and (best is None or k < best):
                best = k
        if best is None:
            if tab:
                k0 = max(tab)
                # refine by halving while needed
                k = k0
                while (q * k).denominator != 1:
                    k *= 2
                    if k > k0 * 16:
                        raise Unsupported("trig refinement")
                    self._halve(m, tab, k // 2)
                best = k
            else:
                k = lcm(q.denominator, self.opts.get("trig_div", 2))
                nm = "*".join(self.vars[v].name for v, _ in m) or "one"
                val = (lambda f, k=k: (lambda: f(float(P.evaluate({m: 1}, self.num)) / k)))
                vc = self.new_var("cos(%s/%d)" % (nm, k), num=val(math.cos))
                vs = self.new_var("sin(%s/%d)" % (nm, k), num=val(math.sin))
                self.ring.add_rule(vs.id, P.sub(P.ONE, {((vc.id, 2),): 1}))
                self.define(vs, vs.z * vs.z + vc.z * vc.z == 1, [vc.id])
                vc.partials = ("cos", m, k, vs.id)
                vs.partials = ("sin", m, k, vc.id)
                tab[k] = (self.sym(vc), self.sym(vs))
                best = k
        c, s = tab[best]
        n = int(q * best)
        return self._multiple(c, s, n)

    def _multiple(self, c, s, n):
        neg = n < 0
        n = abs(n)
        rc, rs = ONE, ZERO
        bc, bs = c, s
        while n:
            if n & 1:
                rc, rs = rc * bc - rs * bs, rs * bc + rc * bs
            n >>= 1
            if n:
                bc, bs = bc * bc - bs * bs, 2 * bs * bc
        return rc, (-rs if neg else rs)

    def _halve(self, m, tab, k):
        """add divisor 2k given k; valid when the angle/k lies in [-pi, pi] (atan2/acos/asin results)"""
        if (2 * k) in tab:
            return
        if ("range", m) not in self.memo:
            # generic atom: fresh half-angle pair tied to the known one
            c, s = tab[k]
            nm = "half"
            val = (lambda f: (lambda: f(float(P.evaluate({m: 1}, self.num)) / (2 * k))))
            vc = self.new_var("cos(%s/%d)" % (nm, 2 * k), num=val(math.cos))
            vs = self.new_var("sin(%s/%d)" % (nm, 2 * k), num=val(math.sin))
            self.ring.add_rule(vs.id, P.sub(P.ONE, {((vc.id, 2),): 1}))
            self.define(vs, vs.z * vs.z + vc.z * vc.z == 1, [vc.id])
            vc.partials = ("cos", m, 2 * k, vs.id)
            vs.partials = ("sin", m, 2 * k, vc.id)
            C, Sn = self.sym(vc), self.sym(vs)
            for lhs, rhs in ((C * C - Sn * Sn, c), (2 * Sn * C, s)):
                e = lhs == rhs
                if isinstance(e, SymBool):
                    self.cons.append((e.z, e.vs, vc.id))
            tab[2 * k] = (C, Sn)
            return
        c, s = tab[k]
        ch = self.sqrt((1 + c) / 2)
        if bool(ch == 0):
            lo = self.memo[("range", m)]
            sh = ONE if lo == "pos" else self.sqrt((1 - c) / 2)
            tab[2 * k] = (ZERO, sh)
            return
        tab[2 * k] = (ch, s / (2 * ch))

    def _trig_pi(self, q):
        q = q % 2
        tbl = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if q in tbl:
            c, s = tbl[q]
            return lift(c), lift(s)
        h = Fraction(1, 2)
        r2 = lambda: self.sqrt(lift(2)) / 2
        r3 = lambda: self.sqrt(lift(3)) / 2
        base = q % h
        turns = int((q - base) / h)
        if base == Fraction(1, 4):
            c, s = r2(), r2()
        elif base == Fraction(1, 6):
            c, s = r3(), lift(h)
        elif base == Fraction(1, 3):
            c, s = lift(h), r3()
        elif base.denominator <= 64:
            # regular polygon angles: fresh pair with the defining multiple-angle identity
            n = base.denominator
            key = ("pin", n)
            r = self.memo.get(key)
            if r is None:
                vc = self.new_var("cospi/%d" % n, num=math.cos(math.pi / n), nonneg=n >= 2)
                vs = self.new_var("sinpi/%d" % n, num=math.sin(math.pi / n), nonneg=True)
                self.ring.add_rule(vs.id, P.sub(P.ONE, {((vc.id, 2),): 1}))
                lo = Fraction(math.cos(math.pi / n)).limit_denominator(10 ** 9)
                los = Fraction(math.sin(math.pi / n)).limit_denominator(10 ** 9)
                eps = Fraction(1, 10 ** 8)
                q_ = lambda f: z3.Q(f.numerator, f.denominator)
                self.define(vc, z3.And(vc.z > q_(lo - eps), vc.z < q_(lo + eps)), [])
                self.define(vs, z3.And(vs.z > q_(los - eps), vs.z < q_(los + eps), vs.z * vs.z + vc.z * vc.z == 1), [vc.id])
                C, Sn = self.sym(vc), self.sym(vs)
                cn, sn = self._multiple(C, Sn, n)
                for e in (cn == -1, sn == 0):
                    if isinstance(e, SymBool):
                        self.cons.append((e.z, e.vs, vc.id))
                vc.partials = vs.partials = {}
                r = (C, Sn)
                self.memo[key] = r
            c, s = self._multiple(r[0], r[1], base.numerator)
        else:
            # any other constant angle: a fresh pair on the unit circle, enclosed numerically
            r = self.memo.get(("pic", base))
            if r is None:
                t = math.pi * float(base)
                vc = self.new_var("cospi*%s" % base, num=math.cos(t), nonneg=True)
                vs = self.new_var("sinpi*%s" % base, num=math.sin(t), nonneg=True)
                self.ring.add_rule(vs.id, P.sub(P.ONE, {((vc.id, 2),): 1}))
                eps = Fraction(1, 10 ** 12)
                q_ = lambda f: z3.Q(f.numerator, f.denominator)
                lo, los = Fraction(math.cos(t)), Fraction(math.sin(t))
                self.define(vc, z3.And(vc.z > q_(lo - eps), vc.z < q_(lo + eps)), [])
                self.define(vs, z3.And(vs.z > q_(los - eps), vs.z < q_(los + eps), vs.z * vs.z + vc.z * vc.z == 1), [vc.id])
                vc.partials = vs.partials = {}
                r = self.memo["pic", base] = (self.sym(vc), self.sym(vs))
            c, s = r
        for _ in range(turns):
            c, s = -s, c
        return c, s

    def atan2(self, y, x):
        y, x = lift(y), lift(x)
        if not y.n and x.is_const() or (y.is_const() and not x.n):
            yc, xc = float(y.const_value()), float(x.const_value())
            if yc == 0:
                return ZERO if xc >= 0 else self.pi
            return self.pi / 2 if yc > 0 else -self.pi / 2
        key = ("atan2", P.key(y.n), y.d, P.key(x.n), x.d)
        r = self.memo.get(key)
        if r is not None:
            return r
        rad = self.sqrt(x * x + y * y)
        if bool(rad == 0):
            return ZERO
        pi = self.pi
        pz = self._pi.z
        v = self.new_var("atan2", num=lambda: math.atan2(self.num_eval(y), self.num_eval(x)))
        m = ((v.id, 1),)
        self.trigs[m] = {1: (x / rad, y / rad)}
        zy, zx = self.zsym(y), self.zsym(x)
        yn = self.known_nonneg(y)
        self.memo[("range", m)] = "pos"
        self.define(v, z3.And(v.z > -pz, v.z <= pz,
                              z3.Implies(zy > 0, z3.And(v.z > 0, v.z < pz)),
                              z3.Implies(zy < 0, v.z < 0),
                              z3.Implies(z3.And(zy == 0, zx > 0), v.z == 0),
                              z3.Implies(z3.And(zy == 0, zx < 0), v.z == pz),
                              z3.Implies(zx > 0, z3.And(v.z < pz / 2, v.z > -pz / 2)),
                              z3.Implies(z3.And(zx < 0, zy > 0), v.z > pz / 2),
                              z3.Implies(z3.And(zx == 0, zy > 0), v.z == pz / 2),
                              z3.Implies(z3.And(zx == 0, zy < 0), v.z == -pz / 2)),
                    self.svars(y) | self.svars(x) | {self._pi.id})
        v.nonneg = yn
        v.partials = ("atan2", y, x)
        r = self.sym(v)
        self.memo[key] = r
        return r

    def _arc(self, x, which):
        x = lift(x)
        if x.is_const():
            c = float(x.const_value())
            if abs(c) > 1:
                raise SymDomainError("math domain error")
            if c == 0:
                return ZERO if which == "asin" else self.pi / 2
            if c == 1:
                return self.pi / 2 if which == "asin" else ZERO
            if c == -1:
                return -self.pi / 2 if which == "asin" else self.pi
        key = (which, P.key(x.n), x.d)
        r = self.memo.get(key)
        if r is not None:
            return r
        if bool(x > 1) or bool(x < -1):
            raise SymDomainError("math domain error")
        co = self.sqrt(1 - x * x)
        pi = self.pi
        pz = self._pi.z
        zx = self.zsym(x)
        fn = math.acos if which == "acos" else math.asin
        v = self.new_var(which, num=lambda: fn(max(-1.0, min(1.0, self.num_eval(x)))))
        m = ((v.id, 1),)
        self.memo[("range", m)] = "pos"
        if which == "acos":
            self.trigs[m] = {1: (x, co)}
            v.nonneg = True
            self.define(v, z3.And(v.z >= 0, v.z <= pz, (zx == 1) == (v.z == 0), (zx == -1) == (v.z == pz),
                                  (zx > 0) == (v.z < pz / 2), (zx < 0) == (v.z > pz / 2)),
                        self.svars(x) | {self._pi.id})
        else:
            self.trigs[m] = {1: (co, x)}
            self.define(v, z3.And(v.z >= -pz / 2, v.z <= pz / 2, (zx == 1) == (v.z == pz / 2),
                                  (zx == -1) == (v.z == -pz / 2), (zx > 0) == (v.z > 0), (zx < 0) == (v.z < 0)),
                        self.svars(x) | {self._pi.id})
        v.partials = (which, x)
        r = self.sym(v)
        self.memo[key] = r
        return r

    def acos(self, x):
        return self._arc(x, "acos")

    def asin(self, x):
        return self._arc(x, "asin")

    def exp(self, x):
        x = lift(x)
        if not x.n:
            return ONE
        key = ("exp", P.key(x.n), x.d)
        r = self.memo.get(key)
        if r is None:
            v = self.new_var("exp", num=lambda: math.exp(self.num_eval(x)), nonneg=True)
            zx = self.zsym(x)
            self.define(v, z3.And(v.z > 0, (zx > 0) == (v.z > 1), (zx == 0) == (v.z == 1)), self.svars(x))
            v.partials = ("exp", x)
            v.positive = True
            self.fnonzero.add(self.factor_id(P.var(v.id)))
            r = self.memo[key] = self.sym(v)
        return r

    def log(self, x):
        x = lift(x)
        if x.is_const():
            c = x.const_value()
            if c == 1:
                return ZERO
            if c <= 0:
                raise SymDomainError("log of non-positive")
        key = ("log", P.key(x.n), x.d)
        r = self.memo.get(key)
        if r is None:
            if not x.is_const() and bool(x <= 0):
                raise SymDomainError("log of non-positive")
            v = self.new_var("log", num=lambda: math.log(self.num_eval(x)))
            zx = self.zsym(x)
            if x.is_const():
                lo = Fraction(math.log(x.const_value())).limit_denominator(10 ** 9)
                e = Fraction(1, 10 ** 8)
                self.define(v, z3.And(v.z > z3.Q((lo - e).numerator, (lo - e).denominator),
                                      v.z < z3.Q((lo + e).numerator, (lo + e).denominator)), [])
                if lo > 0:
                    v.nonneg = v.positive = True
                self.fnonzero.add(self.factor_id(P.var(v.id)))
            else:
                self.define(v, z3.And((zx > 1) == (v.z > 0), (zx == 1) == (v.z == 0)), self.svars(x))
            v.partials = ("log", x)
            r = self.memo[key] = self.sym(v)
        return r

    # ------------------------------------------------------------------ differentiation
    def diff(self, x, wrt, cache=None):
        """d x / d wrt, wrt a base variable (Sym of a single variable)."""
        x = lift(x)
        (m, k), = wrt.n.items()
        v0 = m[0][0]
        if cache is None:
            cache = {}
        d = self._diff(x, v0, cache)
        return d if k == 1 else d / k

    def _dvar(self, u, v0, cache):
        if u == v0:
            return ONE
        if u in cache:
            return cache[u]
        p = self.vars[u].partials
        if p is None:
            if self.vars[u].base:
                r = ZERO
            else:
                rule = self.ring.rules.get(u)
                if rule is not None:
                    dp = self._dpoly(rule, v0, cache)
                    r = ZERO if not dp.n else dp / (2 * self.sym(self.vars[u]))
                else:
                    raise Unsupported("derivative through %s" % self.vars[u].name)
        elif isinstance(p, dict):
            r = ZERO
        else:
            k = p[0]
            me = self.sym(self.vars[u])
            if k == "sqrt":
                dp = self._dpoly(p[1], v0, cache)
                r = ZERO if not dp.n else dp / (2 * me)
            elif k == "root":
                d = self._diff(p[2], v0, cache)
                r = ZERO if not d.n else d / (p[1] * me ** (p[1] - 1))
            elif k == "def":
                r = self._diff(p[1], v0, cache)
            elif k == "cos":
                r = -self.sym(self.vars[p[3]]) * self._diff(Sym({p[1]: 1}), v0, cache) / p[2]
            elif k == "sin":
                r = self.sym(self.vars[p[3]]) * self._diff(Sym({p[1]: 1}), v0, cache) / p[2]
            elif k == "exp":
                r = me * self._diff(p[1], v0, cache)
            elif k == "log":
                d = self._diff(p[1], v0, cache)
                r = ZERO if not d.n else d / p[1]
            elif k == "atan2":
                y, x = p[1], p[2]
                dy, dx = self._diff(y, v0, cache), self._diff(x, v0, cache)
                r = ZERO if not dy.n and not dx.n else (x * dy - y * dx) / (x * x + y * y)
            elif k in ("acos", "asin"):
                d = self._diff(p[1], v0, cache)
                if not d.n:
                    r = ZERO
                else:
                    r = d / self.sqrt(1 - p[1] * p[1])
                    if k == "acos":
                        r = -r
            else:
                raise Unsupported("derivative of %s" % k)
        cache[u] = r
        return r

    def _dpoly(self, p, v0, cache):
        r = ZERO
        for u in P.variables(p):
            du = self._dvar(u, v0, cache)
            if du.n:
                r = r + Sym(P.partial(p, u)) * du
        return r

    def _diff(self, x, v0, cache):
        dn = self._dpoly(x.n, v0, cache)
        if not x.d:
            return dn
        den = Sym(P.ONE, x.d)
        r = dn * den
        for f, e in x.d:
            df = self._dpoly(self.factors[f], v0, cache)
            if df.n:
                r = r - x * df * e * Sym(P.ONE, ((f, 1),))
        return r
