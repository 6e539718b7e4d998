"""Source-level normalisation before a module is executed symbolically.

`x if a < b else y` and `if a < b: b = a` whose outcomes are the two compared values (or a value and its
opposite, compared with zero) are the minimum, the maximum or the absolute value.  They are executed as such, so that
a program written with branches has the same paths as one written with min, max and abs.
"""
import ast

from . import sym as S
from . import shim

OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


def _pure(e):
    """evaluating it twice, or not at all, makes no difference"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, ast.Subscript):
        return _pure(e.value) and _pure(e.slice)
    if isinstance(e, ast.UnaryOp):
        return _pure(e.operand)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and _pure(e.left) and _pure(e.right)
    if isinstance(e, ast.Tuple):
        return all(_pure(x) for x in e.elts)
    return False


def _zero(e):
    return isinstance(e, ast.Constant) and type(e.value) in (int, float) and e.value == 0


def _neg(a, b):
    return isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.USub) and ast.dump(b.operand) == a


def _load(e):
    return ast.parse(ast.unparse(e), mode="eval").body


class Select(ast.NodeTransformer):
    def _call(self, test, then, other):
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, then, other = test.operand, other, then
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]) in OPS):
            return None
        a, b = test.left, test.comparators[0]
        if not all(_pure(x) for x in (a, b, then, other)):
            return None
        op = OPS[type(test.ops[0])]
        A, B, X, Y = (ast.dump(_load(x)) for x in (a, b, then, other))
        if A != B and (X, Y) == (A, B):
            kind, args = op, (a, b, True)
        elif A != B and (X, Y) == (B, A):
            kind, args = op, (a, b, False)
        elif _zero(b) and ((X == A and _neg(A, other)) or (Y == A and _neg(A, then))):
            kind, args = "abs" + op, (a, b, X == A)
        elif _zero(a) and ((X == B and _neg(B, other)) or (Y == B and _neg(B, then))):
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
            kind, args = "abs" + flip[op], (b, a, X == B)
        else:
            return None
        return ast.Call(ast.Name("__select__", ast.Load()),
                        [ast.Constant(kind), _load(args[0]), _load(args[1]), ast.Constant(args[2])], [])

    def _place(self, new, old):
        ast.copy_location(new, old)
        for n in ast.walk(new):
            if "lineno" in getattr(n, "_attributes", ()):
                n.lineno = n.end_lineno = old.lineno
                n.col_offset = n.end_col_offset = old.col_offset
        return new

    def visit_IfExp(self, n):
        self.generic_visit(n)
        c = self._call(n.test, n.body, n.orelse)
        return self._place(c, n) if c is not None else n

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) != 1 or len(n.orelse) > 1 or not isinstance(n.body[0], ast.Assign) or len(n.body[0].targets) != 1:
            return n
        t = n.body[0].targets[0]
        if not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)) or not _pure(_load(t)):
            return n
        other = t
        if n.orelse:
            o = n.orelse[0]
            if not (isinstance(o, ast.Assign) and len(o.targets) == 1 and ast.dump(o.targets[0]) == ast.dump(t)):
                return n
            other = o.value
        c = self._call(n.test, n.body[0].value, _load(other) if other is t else other)
        if c is None:
            return n
        return self._place(ast.Assign([t], c), n)


def select(op, a, b, first):
    """(a if a op b else b) when first, else (b if a op b else a); abs: (a if a op 0 else -a) or the reverse"""
    absolute = op.startswith("abs")
    op = op[3:] if absolute else op
    if not (isinstance(a, S.Sym) or isinstance(b, S.Sym)) or not all(isinstance(x, (S.Sym, int, float)) for x in (a, b)):
        c = S._OPS2[op](a, b)
        if absolute:
            return a if bool(c) == first else -a
        return a if bool(c) == first else b
    up = (op[0] == ">") == first
    if absolute:
        r = S.ctx().abs(S.lift(a))
        return r if up else -r
    for p in (a, b):
        if isinstance(p, float) and p != p:
            c = S._OPS2[op](a, b)
            return a if bool(c) == first else b
    return shim._mm(a, b, up)


def compile_source(src, path):
    tree = Select().visit(ast.parse(src, path))
    return compile(ast.fix_missing_locations(tree), path, "exec")
