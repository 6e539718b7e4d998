"""Bounded symbolic text: ordinary Python strings in which some characters stand for a symbolic decimal digit.

A symbolic digit is written as the character "one" of one of Unicode's decimal digit sets, so that every method of str
(lower, strip, split, startswith, ...) works on it as on any other digit; what is done with the digit's value (number
conversion, character classes of a grammar or a regular expression) goes through the functions below, which fork on it.
The grammar classes stand for the pyparsing library: parsing expressions, first match wins, no backtracking into a
finished element, white space skipped before every terminal."""
import re as _re
import types
from re import _constants as K, _parser

from . import sym as S
from .sym import Sym, Unsupported, lift

SETS = [0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xa66, 0xae6, 0xb66, 0xbe6, 0xc66, 0xce6, 0xd66, 0xe50, 0xed0, 0xf20, 0x1040, 0x1090,
        0x17e0, 0x1810, 0x1946, 0x19d0, 0x1a80, 0x1a90, 0x1b50, 0x1bb0, 0x1c40, 0x1c50, 0xa620, 0xa8d0, 0xa900]


def new_digit(v):
    t = S.CTX.__dict__.setdefault("digits", {})
    if len(t) >= len(SETS):
        raise Unsupported("too many symbolic digits")
    ch = chr(SETS[len(t)] + 1)
    t[ch] = v
    return ch


def digits():
    return getattr(S.CTX, "digits", {}) if S.CTX is not None else {}


def symbolic(text):
    t = digits()
    return bool(t) and any(ch in t for ch in text)


def skeleton(text):
    t = digits()
    return "".join("1" if ch in t else ch for ch in text)


def digit(ch):
    """the value of a digit character"""
    t = digits()
    return t[ch] if ch in t else int(ch)


def is_one_of(ch, test):
    """does the character satisfy test (a predicate on concrete characters)?  Forks on symbolic digits."""
    t = digits()
    if ch not in t:
        return bool(test(ch))
    ok = [k for k in range(10) if test(str(k))]
    if not ok:
        return False
    if len(ok) == 10:
        return True
    d = t[ch]
    lo, hi = ok[0], ok[-1]
    if ok == list(range(lo, hi + 1)):
        if lo == 0:
            return bool(d <= hi)
        if hi == 9:
            return bool(d >= lo)
        return bool(d >= lo) and bool(d <= hi)
    return any(bool(d == k) for k in ok)


def value(text):
    """float(text)"""
    if not symbolic(text):
        return float(text)
    float(skeleton(text))          # ValueError for anything that is no number
    m = _re.fullmatch(r"\s*([+-]?)([\d_]*)(?:\.([\d_]*))?(?:[eE]([+-]?)([\d_]+))?\s*", text)
    if not m:
        raise Unsupported("float(%r)" % skeleton(text))
    from fractions import Fraction
    v = lift(0)
    for ch in (m.group(2) or "").replace("_", ""):
        v = v * 10 + digit(ch)
    w = Fraction(1)
    for ch in (m.group(3) or "").replace("_", ""):
        w = w / 10
        v = v + digit(ch) * w
    if m.group(5):
        v = v * power(m.group(4) == "-", m.group(5).replace("_", ""))
    return -v if m.group(1) == "-" else v


def fromstring(text, sep):
    """numpy.fromstring: numbers as far as they can be read; whatever follows is dropped"""
    out, i = [], 0
    sk = skeleton(text)
    while True:
        m = _re.compile(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?").match(sk, i)
        if not m:
            return out
        out.append(value(text[i:m.end()]))
        i = m.end()
        m = _re.compile(r"\s*" + _re.escape(sep.strip()) + r"\s*").match(sk, i)
        if not m:
            return out
        i = m.end()


def power(neg, text):
    """10 ** (+-text): an unknown positive number when a digit of the exponent is symbolic"""
    from fractions import Fraction
    if not symbolic(text):
        return lift(Fraction(10) ** (-int(text) if neg else int(text)))
    t = S.CTX.__dict__.setdefault("powers", {})
    if (neg, text) not in t:
        ds = [digit(ch) for ch in text]

        def num():
            e = 0
            for d in ds:
                e = e * 10 + round(S.CTX.num_eval(d) if isinstance(d, Sym) else d)
            return 10.0 ** (-e if neg else e)
        v = S.CTX.new_var("pow10.%d" % len(t), "real", num, nonneg=True)
        v.partials = {}
        v.stub = True
        x = S.CTX.sym(v)
        c = x > 0
        S.CTX.cons.append((c.z, c.vs, None))
        t[neg, text] = x
    return t[neg, text]


# ---------------------------------------------------------------------------- regular expressions
CATS = {K.CATEGORY_DIGIT: str.isdecimal, K.CATEGORY_SPACE: str.isspace, K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_"}
NEG = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}


def _in(items, flags):
    neg = any(op is K.NEGATE for op, _ in items)

    def one(ch):
        for op, av in items:
            if op is K.LITERAL and ch == chr(av):
                return True
            if op is K.RANGE and av[0] <= ord(ch) <= av[1]:
                return True
            if op is K.CATEGORY and (CATS[av](ch) if av in CATS else not CATS[NEG[av]](ch)):
                return True
        return False
    if flags & _re.IGNORECASE:
        return lambda ch: (one(ch.lower()) or one(ch.upper())) != neg
    return lambda ch: one(ch) != neg


class Regex_:
    """a compiled regular expression"""
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, int(flags)
        self.tree = _parser.parse(pattern, flags)
        self.real = _re.compile(pattern, flags)
        self.n = self.tree.state.groups

    def _seq(self, ops, k, text, i, g, cont):
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        go = lambda j, g2: self._seq(ops, k + 1, text, j, g2, cont)
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            if i >= len(text):
                return None
            if op is K.LITERAL or op is K.NOT_LITERAL:
                test = _in([(K.LITERAL, av)] + ([(K.NEGATE, None)] if op is K.NOT_LITERAL else []), self.flags)
            elif op is K.IN:
                test = _in(av, self.flags)
            else:
                test = lambda ch: ch != "\n" or self.flags & _re.DOTALL
            return go(i + 1, g) if is_one_of(text[i], test) else None
        if op is K.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, text, i, g, go)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            num, _, _, sub = av

            def done(j, g2):
                if num is not None:
                    g2 = dict(g2)
                    g2[num] = (i, j)
                return go(j, g2)
            return self._seq(list(sub), 0, text, i, g, done)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            hi = 10 ** 6 if hi is K.MAXREPEAT else int(hi)

            def rep(n, j, g2):
                def more():
                    if n < hi:
                        return self._seq(list(sub), 0, text, j, g2, lambda j2, g3: rep(n + 1, j2, g3) if j2 > j or n < lo else None)

                def stop():
                    return go(j, g2) if n >= lo else None
                for f in ((more, stop) if op is K.MAX_REPEAT else (stop, more)):
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, i, g)
        if op is K.AT:
            ok = {K.AT_BEGINNING: i == 0, K.AT_BEGINNING_STRING: i == 0, K.AT_END_STRING: i == len(text),
                  K.AT_END: i == len(text) or text[i:] == "\n"}
            if av not in ok:
                raise Unsupported("regular expression position %s" % av)
            return go(i, g) if ok[av] else None
        raise Unsupported("regular expression %s" % op)

    def at(self, text, pos, full=False):
        return self._seq(list(self.tree), 0, text, pos, {}, lambda j, g: None if full and j != len(text) else (j, g))

    def _m(self, text, full, pos=0):
        r = self.at(text, pos, full)
        return None if r is None else Match(self, text, pos, r)

    def match(self, text, pos=0):
        return self._m(text, False, pos) if symbolic(text) else self.real.match(text, pos)

    def fullmatch(self, text):
        return self._m(text, True) if symbolic(text) else self.real.fullmatch(text)

    def search(self, text):
        if not symbolic(text):
            return self.real.search(text)
        for p in range(len(text) + 1):
            m = self._m(text, False, p)
            if m is not None:
                return m
        return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(text, *a, **k):
            if symbolic(text):
                raise Unsupported("regular expression method %s" % n)
            return getattr(self.real, n)(text, *a, **k)
        return f


class Match:
    def __init__(self, rx, text, start, r):
        self.rx, self.string, self.s, (self.e, self.g) = rx, text, start, r

    def span(self, k=0):
        k = self.rx.real.groupindex.get(k, k)
        return (self.s, self.e) if k == 0 else self.g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def group(self, *ks):
        out = []
        for k in ks or (0,):
            a, b = self.span(k)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.group(k) is None else self.group(k) for k in range(1, self.rx.n))

    def groupdict(self, default=None):
        return {n: self.group(n) for n in self.rx.real.groupindex}


class Re(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "re")
        self.compile = lambda p, flags=0: p if isinstance(p, Regex_) else Regex_(p, flags)
        for n in ("match", "fullmatch", "search", "findall", "sub", "split", "finditer"):
            setattr(self, n, (lambda n: lambda p, *a, **k: self._call(n, p, a, k))(n))

    def _call(self, n, p, a, k):
        flags = k.pop("flags", 0)
        if n in ("match", "fullmatch", "search") and len(a) > 1:
            flags, a = a[1], a[:1]
        if n in ("sub", "findall", "split", "finditer"):
            if any(isinstance(x, str) and symbolic(x) for x in a):
                raise Unsupported("re.%s on symbolic text" % n)
            return getattr(_re, n)(p, *a, flags=flags, **k)
        return getattr(self.compile(p, flags), n)(*a)

    def __getattr__(self, n):
        return getattr(_re, n)


# ---------------------------------------------------------------------------- the grammar library
class ParseException(Exception):
    pass


def elem(x):
    if isinstance(x, str):
        return Literal(x)
    if x is Ellipsis:
        raise Unsupported("... in a grammar")
    return x


WHITE = " \n\t\r"


class El:
    white = WHITE

    def skip(self, s, i):
        while i < len(s) and s[i] in self.white:
            i += 1
        return i

    def parse(self, s, i):
        raise NotImplementedError

    def __add__(self, o):
        return And([self, elem(o)])

    def __radd__(self, o):
        return And([elem(o), self])

    def __or__(self, o):
        return MatchFirst([self, elem(o)])

    def __ror__(self, o):
        return MatchFirst([elem(o), self])

    def __xor__(self, o):
        return Or([self, elem(o)])

    def __rxor__(self, o):
        return Or([elem(o), self])

    def __invert__(self):
        return NotAny(self)

    def __mul__(self, n):
        if isinstance(n, int):
            return And([self] * n)
        raise Unsupported("repetition in a grammar")

    def __getitem__(self, k):
        if k is Ellipsis:
            return ZeroOrMore(self)
        if isinstance(k, int):
            return And([self] * k)
        if isinstance(k, tuple) and len(k) == 2:
            lo, hi = k
            lo, hi = (0 if lo in (Ellipsis, None) else lo), (None if hi in (Ellipsis, None) else hi)
            return Repeat(self, lo, hi)
        raise Unsupported("repetition in a grammar")

    def __call__(self, name=None):
        return self

    def same(self, *a, **k):
        return self
    set_name = setName = set_results_name = setResultsName = copy = streamline = same

    def refuse(self, *a, **k):
        raise Unsupported("grammar feature")
    set_parse_action = setParseAction = add_parse_action = addParseAction = add_condition = refuse

    def suppress(self):
        return Suppress(self)

    def leave_whitespace(self, recursive=True):
        import copy
        r = copy.copy(self)
        r.white = ""
        if recursive and hasattr(r, "es"):
            r.es = [e.leave_whitespace() for e in r.es]
        return r
    leaveWhitespace = leave_whitespace

    def parse_string(self, s, parse_all=False, **k):
        parse_all = k.get("parseAll", parse_all)
        s = s.expandtabs()
        i, out = self.parse(s, 0)
        if parse_all:
            StringEnd().parse(s, i)
        return Results(out)
    parseString = parse_string

    def matches(self, s, parse_all=True, **k):
        try:
            self.parse_string(s, parse_all)
            return True
        except ParseException:
            return False

    def __eq__(self, o):
        if isinstance(o, str):
            return self.matches(o)
        return self is o
    __hash__ = object.__hash__


class Results(list):
    def as_list(self):
        return list(self)
    asList = as_list


class Literal(El):
    fold = False

    def __init__(self, t):
        self.t = t

    def parse(self, s, i):
        i = self.skip(s, i)
        for k, ch in enumerate(self.t):
            if i + k >= len(s) or not is_one_of(s[i + k], lambda x: x == ch or (self.fold and x.lower() == ch.lower())):
                raise ParseException()
        return i + len(self.t), [self.t]


class CaselessLiteral(Literal):
    fold = True


class Keyword(Literal):
    def parse(self, s, i):
        j, out = Literal.parse(self, s, i)
        ident = lambda x: x.isalnum() or x in "_$"
        if j < len(s) and is_one_of(s[j], ident) or j - len(self.t) > 0 and is_one_of(s[j - len(self.t) - 1], ident):
            raise ParseException()
        return j, out


class CaselessKeyword(Keyword):
    fold = True


class Regex(El):
    def __init__(self, pattern, flags=0, **k):
        self.rx = pattern if isinstance(pattern, Regex_) else Regex_(pattern, flags)

    def parse(self, s, i):
        i = self.skip(s, i)
        r = self.rx.at(s, i)
        if r is None:
            raise ParseException()
        return r[0], [s[i:r[0]]]


class Word(El):
    def __init__(self, first, body=None, min=1, max=0, exact=0, **k):
        self.first, self.body = first, body if body is not None else first
        self.min, self.max = (exact, exact) if exact else (min, max)
        if k.get("as_keyword") or k.get("exclude_chars"):
            raise Unsupported("grammar feature")

    def parse(self, s, i):
        i = j = self.skip(s, i)
        while j < len(s) and (not self.max or j - i < self.max) and is_one_of(s[j], lambda x: x in (self.first if j == i else self.body)):
            j += 1
        if j - i < max(self.min, 1):
            raise ParseException()
        return j, [s[i:j]]


class Char(Word):
    def __init__(self, chars, **k):
        Word.__init__(self, chars, exact=1)


class And(El):
    def __init__(self, es, *a):
        self.es = [elem(e) for e in es]

    def parse(self, s, i):
        out = []
        for e in self.es:
            i, o = e.parse(s, i)
            out += o
        return i, out


class MatchFirst(El):
    def __init__(self, es, *a):
        self.es = [elem(e) for e in es]

    def parse(self, s, i):
        for e in self.es:
            try:
                return e.parse(s, i)
            except ParseException:
                pass
        raise ParseException()


class Or(MatchFirst):
    def parse(self, s, i):
        best = None
        for e in self.es:
            try:
                r = e.parse(s, i)
            except ParseException:
                continue
            if best is None or r[0] > best[0]:
                best = r
        if best is None:
            raise ParseException()
        return best


class Repeat(El):
    def __init__(self, e, lo=0, hi=None):
        self.es, self.lo, self.hi = [elem(e)], lo, hi

    def parse(self, s, i):
        out, n = [], 0
        while self.hi is None or n < self.hi:
            try:
                j, o = self.es[0].parse(s, i)
            except ParseException:
                break
            if j == i and n >= self.lo:
                break
            i, n = j, n + 1
            out += o
        if n < self.lo:
            raise ParseException()
        return i, out


class NotAny(El):
    def __init__(self, e):
        self.es = [elem(e)]

    def parse(self, s, i):
        try:
            self.es[0].parse(s, i)
        except ParseException:
            return i, []
        raise ParseException()


class FollowedBy(NotAny):
    def parse(self, s, i):
        self.es[0].parse(s, i)
        return i, []


class Suppress(El):
    def __init__(self, e):
        self.es = [elem(e)]

    def parse(self, s, i):
        return self.es[0].parse(s, i)[0], []


class Group(Suppress):
    def parse(self, s, i):
        j, o = self.es[0].parse(s, i)
        return j, [Results(o)]


class Combine(Suppress):
    def __init__(self, e, join_string="", adjacent=True, **k):
        self.es = [elem(e).leave_whitespace() if adjacent else elem(e)]
        self.join = join_string

    def parse(self, s, i):
        j, o = self.es[0].parse(s, self.skip(s, i))
        return j, [self.join.join(o)]

    def leave_whitespace(self, recursive=True):
        r = El.leave_whitespace(self, recursive)
        return r


class LineEnd(El):
    def parse(self, s, i):
        while i < len(s) and s[i] in " \t\r":
            i += 1
        if i == len(s):
            return i + 1, []
        if s[i] == "\n":
            return i + 1, ["\n"]
        raise ParseException()


class StringEnd(El):
    def parse(self, s, i):
        i = self.skip(s, i)
        if i < len(s):
            raise ParseException()
        return i, []


class StringStart(El):
    def parse(self, s, i):
        if i and s[:i].strip(WHITE):
            raise ParseException()
        return i, []


LineStart = StringStart


class Empty(El):
    def parse(self, s, i):
        return i, []


def ZeroOrMore(e, *a, **k):
    return Repeat(e, 0, None)


def OneOrMore(e, *a, **k):
    return Repeat(e, 1, None)


def Optional(e, *a, **k):
    if a or k:
        raise Unsupported("grammar feature")
    return Repeat(e, 0, 1)


def DelimitedList(e, delim=",", combine=False, min=None, max=None, allow_trailing_delim=False, **k):
    if combine or min or max or allow_trailing_delim:
        raise Unsupported("grammar feature")
    e = elem(e)
    return And([e, ZeroOrMore(And([Suppress(elem(delim)), e]))])


def one_of(words, caseless=False, **k):
    words = words.split() if isinstance(words, str) else list(words)
    words = sorted(words, key=len, reverse=True)
    return MatchFirst([(CaselessLiteral if caseless else Literal)(w) for w in words])


def make_pyparsing():
    m = types.ModuleType("pyparsing")
    for n in ("Literal", "CaselessLiteral", "Keyword", "CaselessKeyword", "Regex", "Word", "Char", "And", "MatchFirst", "Or", "NotAny", "FollowedBy", "Suppress",
              "Group", "Combine", "LineEnd", "StringEnd", "StringStart", "LineStart", "Empty", "ZeroOrMore", "OneOrMore", "Optional", "DelimitedList", "one_of",
              "ParseException"):
        setattr(m, n, globals()[n])
    m.ParserElement = El
    m.Opt = Optional
    m.oneOf = one_of
    m.ParseBaseException = ParseException
    m.delimitedList = m.delimited_list = DelimitedList
    m.nums, m.alphas = "0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
    m.alphanums = m.alphas + m.nums
    m.line_end, m.lineEnd, m.string_end, m.stringEnd = LineEnd(), LineEnd(), StringEnd(), StringEnd()
    return m
