"""Polynomials in two variables."""
from symx.harness import harness
from common import *
PM = "rainbow.math.polynomial"


def expect(coef, powers, x, y):
    s = 0
    for a, p in zip(coef, powers):
        t = a
        for _ in range(int(p[0])):
            t = t * x
        for _ in range(int(p[1])):
            t = t * y
        s = s + t
    return s


def monomials(order):
    return [(p - j, j) for p in range(order + 1) for j in range(p + 1)]


def _poly(c, P, order, name="a"):
    p = P.Poly(2, order)
    co = [c.real("%s%d" % (name, k)) for k in range(len(monomials(order)))]
    p.coefficients = c.array(co)
    return p, co


@harness("Q06", "polynomial.Poly polynomial.evaluate polynomial.Helpers.number_of_monomial_terms polynomial.Helpers.poly2_make_monomial_powers", "order 0..5, every coefficient, every argument")
def evaluation(c):
    P = c.mod(PM)
    order = c.choose("order", [0, 1, 2, 3, 4, 5])
    p, co = _poly(c, P, order)
    ms = monomials(order)
    n3 = len([1 for i in range(order + 1) for j in range(order + 1) for k in range(order + 1) if i + j + k <= order])
    c.prove("terms_of_one_and_three_variables", P.Helpers.number_of_monomial_terms(1, order) == order + 1 and P.Helpers.number_of_monomial_terms(3, order) == n3)
    c.prove("terms", p.terms == len(ms) and P.Helpers.number_of_monomial_terms(2, order) == len(ms))
    c.prove("each_monomial_once", sorted((int(r[0]), int(r[1])) for r in p.powers) == sorted(ms))
    x, y = c.real("x"), c.real("y")
    want = expect(co, p.powers, x, y)
    c.eq("evaluate", P.evaluate(p, c.array([x, y])), want)
    c.eq("call", p(c.array([x, y])), want)
    c.eq("coefficients_kept", p.coefficients, c.array(co))


@harness("Q06", "polynomial.derivative polynomial.evaluate", "order 0..5, every coefficient, every argument")
def derivative(c):
    P = c.mod(PM)
    order = c.choose("order", [0, 1, 2, 3, 4, 5])
    p, co = _poly(c, P, order)
    powers = [(int(r[0]), int(r[1])) for r in p.powers]
    x, y = c.real("x", 0.5, 2), c.real("y", 0.5, 2)
    d = P.derivative(p)
    c.prove("one_per_variable", len(d) == 2)
    for k in range(2):
        want = 0
        for a, pw in zip(co, powers):
            e = list(pw)
            if e[k] == 0:
                continue
            f = e[k]
            e[k] -= 1
            want = want + expect([a * f], [e], x, y)
        c.eq("partial%d" % k, P.evaluate(d[k], c.array([x, y])), c.array([want + 0 * x])[0])
    c.eq("coefficients_kept", p.coefficients, c.array(co))
    c.prove("powers_kept", [(int(r[0]), int(r[1])) for r in p.powers] == powers)


@harness("Q06", "polynomial.interpolate polynomial.Helpers.make_vandermonde_matrix polynomial.evaluate", "order 1..3, every sample set in general position, 1 or 2 value columns or a flat value vector, 0..1 surplus samples")
def interpolation(c):
    P = c.mod(PM)
    order = c.choose("order", [1, 2, 3])
    K = len(monomials(order))
    extra = c.choose("extra", [0, 1])
    cols = c.choose("cols", [0, 1, 2])
    X = c.mat("x", K + extra, 2)
    v = c.mat("v", K + extra, cols) if cols else c.vec("v", K + extra)
    solve_contract(c)
    if not c.sym:
        import numpy as np
        V = np.array([[x ** i * y ** j for i, j in monomials(order)] for x, y in X[:K]])
        c.assume(np.linalg.cond(V) < 1e6)
    Ps = P.interpolate(order, X, v)
    c.prove("count", len(Ps) == max(cols, 1))
    for k, p in enumerate(Ps):
        for i in range(K):
            c.eq("passes_through[%d,%d]" % (k, i), P.evaluate(p, X[i]), v[i][k] if cols else v[i])


def _parse(c, text):
    """(sign, coefficient, powers) of every printed term"""
    out = []
    sign = 1
    cur = None
    for tok in text.split():
        if tok in "+-":
            if cur is not None:
                out.append(cur)
            cur = None
            sign = 1 if tok == "+" else -1
            continue
        if cur is None:
            if tok[0] == "-":
                sign = -sign
                tok = tok[1:]
            cur = [sign, None, [0, 0]]
        if tok[0] in "xy":
            base, _, e = tok.partition("^")
            cur[2]["xy".index(base)] += int(e) if e else 1
            if cur[1] is None:
                cur[1] = 1
        else:
            cur[1] = c.number(tok)
    if cur is not None:
        out.append(cur)
    return out


@harness("Q06", "polynomial.to_str polynomial.Poly.__str__", "orders 0..3, every coefficient value in two terms (neighbouring ones; any two in the thorough tier; whole numbers, fractions, ones, zeros, both signs), the others zero", max_paths=20000)
def text_form(c):
    P = c.mod(PM)
    order = c.choose("order", [0, 1, 2, 3])
    ms = monomials(order)
    p = P.Poly(2, order)
    i = c.choose("i", list(range(len(ms))))
    j = c.choose("j", list(range(i, len(ms) if c.thorough else min(len(ms), i + (3 if order < 3 else 2)))))
    a = c.real("a", pick=[0.0, 1.0, -1.0, 2.0, -3.0, 0.25, -1.5])
    b = c.real("b", pick=[0.0, 1.0, -1.0, 2.0, -3.0, 0.25, -1.5])
    co = [0] * len(ms)
    co[i] = a
    if j != i:
        co[j] = b
    p.coefficients = c.array(co)
    powers = [(int(r[0]), int(r[1])) for r in p.powers]
    terms = _parse(c, P.to_str(p))
    got = {}
    for s, co_, pw in terms:
        got[tuple(pw)] = got.get(tuple(pw), 0) + s * co_
    for k, pw in enumerate(powers):
        c.eq("coefficient%s" % (pw,), c.array([got.pop(pw, 0) + 0 * a])[0], c.array([co[k] + 0 * a])[0])
    c.prove("no_other_terms", not got)
