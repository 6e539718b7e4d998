"""Sparse multivariate polynomials over Q, reduced by rules  v**2 -> polynomial.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of (var, exp) pairs sorted by var;
coefficients are int or Fraction.  Never mutated after creation."""
from fractions import Fraction

ZERO = {}
ONE = {(): 1}


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = _norm(c)
    return {(): c} if c else {}


def var(v):
    return {((v, 1),): 1}


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


_mcache = {}


def mono_mul(x, y):
    if not x:
        return y
    if not y:
        return x
    key = (x, y)
    r = _mcache.get(key)
    if r is not None:
        return r
    i = j = 0
    out = []
    lx, ly = len(x), len(y)
    while i < lx and j < ly:
        vx, ex = x[i]
        vy, ey = y[j]
        if vx == vy:
            out.append((vx, ex + ey))
            i += 1
            j += 1
        elif vx < vy:
            out.append(x[i])
            i += 1
        else:
            out.append(y[j])
            j += 1
    out.extend(x[i:])
    out.extend(y[j:])
    r = tuple(out)
    if len(_mcache) > 400000:
        _mcache.clear()
    _mcache[key] = r
    return r


class TooBig(Exception):
    pass


MAX_TERMS = 400000


class Ring:
    def __init__(self):
        self.rules = {}   # var -> poly equal to var**2
        self.powcache = {}

    def add_rule(self, v, p):
        self.rules[v] = p

    def mul_raw(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1:
            (m, c), = a.items()
            if not m:
                return scale(b, c)
        if len(b) == 1:
            (m, c), = b.items()
            if not m:
                return scale(a, c)
        if len(a) * len(b) > 40 * MAX_TERMS:
            raise TooBig()
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mono_mul(ma, mb)
                c = ca * cb
                s = r.get(m)
                r[m] = c if s is None else s + c
        out = {m: _norm(c) for m, c in r.items() if c}
        if len(out) > MAX_TERMS:
            raise TooBig()
        return out

    def mul(self, a, b):
        return self.reduce(self.mul_raw(a, b))

    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        while True:
            bad = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in rules:
                        bad = True
                        break
                if bad:
                    break
            if not bad:
                return p
            keep = {}
            todo = {}
            for m, c in p.items():
                hit = None
                for v, e in m:
                    if e >= 2 and v in rules:
                        hit = v
                if hit is None:
                    keep[m] = c
                else:
                    # replace the highest-numbered rule variable first
                    e = dict(m)[hit]
                    rest = tuple((v, x) for v, x in m if v != hit)
                    if e & 1:
                        rest = mono_mul(rest, ((hit, 1),))
                    d = todo.setdefault((hit, e // 2), {})
                    d[rest] = c
            p = keep
            for (v, k), q in todo.items():
                pw = self.powcache.get((v, k))
                if pw is None:
                    pw = ONE
                    for _ in range(k):
                        pw = self.mul_raw(pw, rules[v])
                    self.powcache[(v, k)] = pw
                p = add(p, self.mul_raw(q, pw))


def variables(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def key(p):
    return frozenset(p.items())


def degree_in(p, v):
    d = 0
    for m in p:
        for x, e in m:
            if x == v and e > d:
                d = e
    return d


def lead(p):
    """Leading monomial under graded order then tuple order (any fixed total multiplicative order is fine)."""
    return max(p, key=_ordkey)


def _ordkey(m):
    # lexicographic order on exponents with smaller var index = larger: a monomial order
    return tuple((-v, e) for v, e in m) if False else _lexkey(m)


def _lexkey(m):
    return _Lex(m)


class _Lex:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, other):
        a, b = self.m, other.m
        i = 0
        la, lb = len(a), len(b)
        while True:
            if i == la:
                return i < lb
            if i == lb:
                return False
            va, ea = a[i]
            vb, eb = b[i]
            if va != vb:
                # the one having the smaller var index is larger
                return va > vb
            if ea != eb:
                return ea < eb
            i += 1


def mono_div(x, y):
    d = dict(x)
    for v, e in y:
        k = d.get(v, 0) - e
        if k < 0:
            return None
        if k == 0:
            del d[v]
        else:
            d[v] = k
    return tuple(sorted(d.items()))


def exact_div(ring, p, q, limit=4000):
    """p/q if q divides p exactly as plain polynomials, else None."""
    if not p:
        return {}
    if len(q) > len(p) * 4 + 8 or len(p) > limit:
        return None
    vq = variables(q)
    vp = variables(p)
    if not vq <= vp:
        return None
    for v in vq:
        if degree_in(p, v) < degree_in(q, v):
            return None
    lq = lead(q)
    cq = q[lq]
    out = {}
    steps = 0
    while p:
        lp = lead(p)
        m = mono_div(lp, lq)
        if m is None:
            return None
        c = _norm(Fraction(p[lp]) / cq)
        out[m] = c
        p = sub(p, ring.mul_raw({m: c}, q))
        steps += 1
        if steps > 600 or len(p) > limit:
            return None
    return out


def evaluate(p, env):
    s = 0
    for m, c in p.items():
        t = c
        for v, e in m:
            t = t * env[v] ** e
        s = s + t
    return s


def partial(p, v):
    r = {}
    for m, c in p.items():
        for i, (x, e) in enumerate(m):
            if x == v:
                mm = m[:i] + (((x, e - 1),) if e > 1 else ()) + m[i + 1:]
                s = r.get(mm, 0) + c * e
                r[mm] = s
                break
    return {m: _norm(c) for m, c in r.items() if c}


def monomial_content(p):
    """gcd monomial of all terms"""
    it = iter(p)
    g = dict(next(it))
    for m in it:
        if not g:
            break
        d = dict(m)
        for v in list(g):
            e = d.get(v, 0)
            if e < g[v]:
                if e:
                    g[v] = e
                else:
                    del g[v]
    return tuple(sorted(g.items()))
