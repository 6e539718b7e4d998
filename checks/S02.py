"""Textual vectors, rotations and keywords."""
import re

from symx.harness import harness
from common import *
VM = "rainbow.math.vector3"
QM = "rainbow.math.quaternion"
NOTE = """Texts of bounded length: every character of the number under test ranges over digits (symbolic, all ten values), minus, plus, point, e, space, or a full well-formed text has one arbitrary insertion, deletion or replacement (two insertions in the thorough tier).  The grammar library (pyparsing) is a stand-in with the meaning of its documentation, white-space skipping included; replays use the library itself.  Number conversion is exact instead of rounded.  Well-formed numbers: optional minus, no superfluous leading zeros, optional fraction, optional signed exponent with any number of digits.  Surplus components are cut off, as the tests ask for."""
STRICT = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?(e[+-]\d+)?")
SHAPE = re.compile(r"(-?)(\d+)(\.\d+)?(e[+-]\d+)?")


def reading(f, text):
    """what the text is read as, or None when it is rejected"""
    try:
        return f(text)
    except Exception as e:
        if type(e).__name__ in ("Unsupported", "Inconclusive", "TooBig", "RecursionError"):
            raise
        return None


def loose(c, t):
    """the value of a number, None if the text is none (any notation of Python)"""
    try:
        float(c.skeleton(t))
    except ValueError:
        return None
    return c.float_of(t)


def strict(c, t):
    """condition: a number in the documented notation"""
    m = SHAPE.fullmatch(c.skeleton(t))
    if not m:
        return False
    a, b = m.span(2)
    if b - a == 1:
        return True
    return c.digit_of(t[a]) >= 1


def number(c, name, n, alphabet="d-.e+ "):
    """every text of n characters over the alphabet; d is a digit"""
    out = ""
    for k in range(n):
        x = c.choose("%s.%d" % (name, k), list(alphabet))
        out += c.digit("%s.d%d" % (name, k)) if x == "d" else x
    return out


def verdict(c, got, must, want):
    """must: condition under which the text has to be accepted; want: the value it then denotes, None if it denotes nothing"""
    if got is None:
        c.prove("well_formed_text_accepted", c.no(must) if not isinstance(must, bool) else not must)
        return
    if want is None:
        c.fail("malformed_text_rejected")
        return
    c.prove("size", len(got) == len(want))
    c.eq("value", got, want)


def components(c, text, n):
    """condition for acceptance and value of a bracketed list of at least n numbers"""
    t = text.lower()
    s = t.strip()
    if len(s) < 2 or s[0] != "[" or s[-1] != "]":
        return False, None
    parts = s[1:-1].split(",")
    vals = [loose(c, p) for p in parts]
    if len(parts) < n or any(v is None for v in vals):
        return False, None
    must = c.all(*[strict(c, p) for p in parts]) if t == s else False
    return must, vals[:n]


@harness("S02", "vector3.from_string quaternion.from_string parse_string.parse_string_to_array_check", "a vector or quaternion one component of which is any text of up to 4 characters (thorough: 5) over digits, minus, plus, point, e and space", max_paths=60000, time=600)
def numbers_in_lists(c):
    quat = c.choose("kind", ["vector", "quaternion"]) == "quaternion"
    n = 4 if quat else 3
    L = c.choose("length", [1, 2, 3] if quat and not c.thorough else [1, 2, 3, 4, 5] if c.thorough and not quat else [1, 2, 3, 4])
    at = c.choose("component", [n - 1] if L > 3 else [0, n - 1] if L > 2 else list(range(n)))
    parts = ["2", "3", "4", "5"][:n]
    parts[at] = number(c, "n", L)
    text = "[" + ",".join(parts) + "]"
    M = c.mod(QM if quat else VM)
    got = reading(M.from_string, text)
    v = loose(c, parts[at])
    want = None if v is None else [v if k == at else [2, 3, 4, 5][k] for k in range(n)]
    verdict(c, got, strict(c, parts[at]), want)


LONG = ["d.dd", "-d.ddd", "dd.dd", "de-dd", "d.de+dd", "-d.de-d", "ddde+d", "0.00d", "-0.dde-0d", "dddd", "d.de-0d"]


@harness("S02", "vector3.from_string quaternion.from_string", "longer numbers of eleven shapes, every digit; as component, angle and axis", free_angles=True)
def longer_numbers(c):
    shape = c.choose("shape", LONG)
    t = "".join(c.digit("d%d" % k) if x == "d" else x for k, x in enumerate(shape))
    where = c.choose("where", ["vector", "quaternion", "angle"])
    ok = strict(c, t)
    v = c.float_of(t)
    if where == "vector":
        verdict(c, reading(c.mod(VM).from_string, "[1, " + t + ",3]"), ok, [1, v, 3])
    elif where == "quaternion":
        verdict(c, reading(c.mod(QM).from_string, "[1,2,3," + t + "]"), ok, [1, 2, 3, v])
    else:
        ax = c.choose("axis", ["x", "y", "z"])
        verdict(c, reading(c.mod(QM).from_string, "r" + ax + ":" + t), ok, turn(c, v, "xyz".index(ax)))


def turn(c, deg, axis):
    h = deg * c.pi / 360
    out = [c.np.cos(h), 0, 0, 0]
    out[axis + 1] = c.np.sin(h)
    return out


def rotation(c, text):
    """condition for acceptance and value of the text of a rotation"""
    t = text.lower()
    s = t.strip()
    m = re.fullmatch(r"r([xyz])\s*:(.*)", s, re.S)
    if m:
        v = loose(c, m.group(2))
        if v is None:
            return False, None
        return strict(c, t[3:].strip(" ")) if t[:3] == "r" + m.group(1) + ":" else False, turn(c, v, "xyz".index(m.group(1)))
    m = re.fullmatch(r"ru\s*:(.*?):(.*)", s, re.S)
    if m:
        v, (must, axis) = loose(c, m.group(1)), components(c, m.group(2), 3)
        if v is None or axis is None:
            return False, None
        h = v * c.pi / 360
        n = c.np.sqrt(dot(axis, axis))
        exact = t == "ru:" + m.group(1) + ":" + m.group(2)
        return c.all(strict(c, m.group(1)), must) if exact else False, [c.np.cos(h)] + [c.np.sin(h) * x / n for x in axis]
    if s == "identity":
        return t == s, [1, 0, 0, 0]
    return components(c, text, 4)


def edited(c, text, alphabet, edits=1):
    """the text (a list of characters) with one arbitrary edit"""
    text = list(text)
    for e in range(edits):
        what = c.choose("edit%d" % e, ["none", "insert", "delete", "replace"] if edits == 1 else ["insert"])
        if what == "none":
            break
        p = c.choose("place%d" % e, list(range(len(text) + (what == "insert"))))
        if what == "delete":
            del text[p]
        else:
            x = c.choose("letter%d" % e, list(alphabet))
            text[p:p + (what == "replace")] = [x]
    return "".join(text)


def template(c, shape, positive=()):
    out, k = [], 0
    for x in shape:
        if x == "d":
            ch = c.digit("d%d" % k)
            if k in positive:
                c.assume(c.digit_of(ch) >= 1)
            out.append(ch)
            k += 1
        else:
            out.append(x)
    return out


@harness("S02", "vector3.from_string vector3.check_string parse_string.parse_string_to_array_check", "a list of three or four numbers with any one character inserted, removed or replaced (thorough: two insertions)", max_paths=60000, time=600)
def edited_vectors(c):
    text = edited(c, template(c, c.choose("shape", ["[d,d,d]", "[d, -d.d ,d,d]", " [d,d,d] "])), " []().,:;\n-ae1", 2 if c.thorough else 1)
    must, want = components(c, text, 3)
    verdict(c, reading(c.mod(VM).from_string, text), must, want)


ROT = {"rx:-d.d": (), "ry: d": (), "rz:dde+d": (0,), "ru:d:[d,d,d]": (1, 2, 3), "ru:-d.d:[d, -d ,d]": (2, 3, 4), "[d,d,d,d]": ()}


@harness("S02", "quaternion.from_string quaternion.check_string parse_string", "six rotation texts in any capitalisation with any one character inserted, removed or replaced, every digit", max_paths=60000, time=600, free_angles=True)
def edited_rotations(c):
    shape = c.choose("shape", sorted(ROT))
    text = edited(c, template(c, shape, ROT[shape]), " [],:\n-rxzu1" if not c.thorough else " []().,:;\n-rxyzu1ae+")
    text = c.choose("case", [str.lower, str.upper])(text)
    axis = re.findall(r"\[(.*)\]", text)
    if text.lower().startswith("ru") and axis:            # no rotation about the zero vector
        vs = [loose(c, p) for p in axis[0].split(",")]
        c.assume(c.any(*[v != 0 for v in vs[:3] if v is not None]))
    must, want = rotation(c, text)
    verdict(c, reading(c.mod(QM).from_string, text), must, want)


WORDS = {"ones": [1, 1, 1], "zero": [0, 0, 0], "i": [1, 0, 0], "j": [0, 1, 0], "k": [0, 0, 1]}


@harness("S02", "vector3.from_string quaternion.from_string parse_string.parse_string_to_keywords_check", "every keyword in any of three capitalisations with any one letter inserted, removed or replaced")
def keywords(c):
    word = c.choose("word", sorted(WORDS) + ["identity"])
    text = edited(c, word, "ijkonesztyx [1")
    text = c.choose("case", [str.lower, str.upper, str.title])(text)
    low = text.lower()
    if word == "identity":
        verdict(c, reading(c.mod(QM).from_string, text), low == "identity", [1, 0, 0, 0] if low.strip() == "identity" else None)
    else:
        verdict(c, reading(c.mod(VM).from_string, text), low in WORDS, WORDS.get(low.strip()))


@harness("S02", "vector3.from_string vector3.rand parse_string.parse_string_to_random_range_check", "three range texts with any one character inserted, removed or replaced, every digit, every random draw")
def random_ranges(c):
    text = edited(c, template(c, c.choose("shape", ["rand:d:d.d", "rand:-d:d", "RAND: -d.d : d"])), " [],:\n-r.1")

    def uniform(lo=0.0, hi=1.0, size=None):
        u = [c.real("u%d" % k, 0, 1) for k in range(3)]
        return c.array([lo + (hi - lo) * x for x in u])
    c.stub(c.np.random, "uniform", uniform)
    m = re.fullmatch(r"rand\s*:(.*?):(.*)", text.lower().strip(), re.S)
    lo, hi = (loose(c, m.group(1)), loose(c, m.group(2))) if m else (None, None)
    got = reading(c.mod(VM).from_string, text)
    if lo is None or hi is None:
        c.prove("malformed_text_rejected", got is None)
        return
    if got is None:
        exact = text.lower() == "rand:" + m.group(1) + ":" + m.group(2)
        c.prove("well_formed_text_accepted", not exact or c.no(c.all(strict(c, m.group(1).strip(" ")), strict(c, m.group(2).strip(" ")))))
        return
    c.prove("size", len(got) == 3)
    for k in range(3):
        c.prove("at_least%d" % k, c.implies(lo <= hi, got[k] >= lo - (0 if c.sym else 1e-9)))
        c.prove("at_most%d" % k, c.implies(lo <= hi, got[k] <= hi + (0 if c.sym else 1e-9)))
