"""Canonical value terms (value numbering with an algebraic normal form).

A term is a nested tuple whose first element is the operator.  Arithmetic is kept as
a polynomial with rational coefficients over opaque terms (exponents may be negative),
so `a / b + c * 60` and `60 * c + (1 / b) * a` are the same term.  Comparisons are kept as
`lt0(p)` / `eq0(p)` / `eq(a, b)` atoms with a polarity.
"""

from fractions import Fraction
from functools import lru_cache

NONE = ("none",)
TRUE = ("bool", True)
FALSE = ("bool", False)


def num(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return ("call", "float", (("str", repr(v)),), ())
        v = Fraction(repr(v))
    return ("num", Fraction(v))


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return ("str", v)
    return ("const", repr(v))


@lru_cache(maxsize=None)
def tkey(t):
    return repr(t)


def is_const(t):
    return t[0] in ("num", "str", "bool", "none", "const")


def mentions(t, x):
    """Does term t contain subterm (or atom component) x?"""
    return _mentions(t, x)


@lru_cache(maxsize=200000)
def _mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for c in t:
            if c == x:
                return True
            if isinstance(c, tuple) and _mentions(c, x):
                return True
    return False


def subst(t, f):
    """Bottom-up rewriting; f(term) returns a replacement or None."""
    r = f(t)
    if r is not None:
        return r
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "poly":
        acc = num(0)
        changed = False
        for mono, coef in t[1]:
            m = ("num", coef)
            for base, exp in mono:
                nb = subst(base, f)
                if nb != base:
                    changed = True
                m = mul(m, power(nb, exp))
            acc = add(acc, m)
        return acc if changed else t
    if t[0] in ("lt0", "eq0"):
        nb = subst(t[1], f)
        if nb == t[1]:
            return t
        return lt0(nb) if t[0] == "lt0" else eq0(nb)
    new = []
    changed = False
    for c in t:
        if isinstance(c, tuple):
            n = subst(c, f)
            if n is not c and n != c:
                changed = True
            new.append(n)
        else:
            new.append(c)
    if not changed:
        return t
    nt = tuple(new)
    if nt and nt[0] == "eq" and len(nt) == 3:
        return eq(nt[1], nt[2])
    return nt


def replace(t, old, new):
    if not mentions(t, old):
        return t
    return subst(t, lambda x: new if x == old else None)


def bv(i=0):
    """Variable of the i-th enclosing binder (each, exists, sum, sorted, filter)."""
    return ("bv",) if i == 0 else ("bv", i)


def _rebind(t, leaf, depth):
    def f(x):
        r = leaf(x, depth)
        if r is not None:
            return r
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == "each" and len(x) == 4:
            return ("each", _rebind(x[1], leaf, depth), _rebind(x[2], leaf, depth + 1),
                    tuple(_rebind(c, leaf, depth + 1) for c in x[3]))
        if x[0] in ("exists", "sum") and len(x) == 3:
            return (x[0], _rebind(x[1], leaf, depth), _rebind(x[2], leaf, depth + 1))
        if x[0] == "sorted" and len(x) == 4:
            return ("sorted", _rebind(x[1], leaf, depth), _rebind(x[2], leaf, depth + 1), x[3])
        if x[0] == "filter" and len(x) == 3:
            return ("filter", _rebind(x[1], leaf, depth), tuple(_rebind(c, leaf, depth + 1) for c in x[2]))
        return None

    return subst(t, f)


def bind(t, el):
    """The body of a binder over the element el."""
    def leaf(x, depth):
        if x == el:
            return bv(depth)
        if isinstance(x, tuple) and x and x[0] == "bv":
            i = x[1] if len(x) > 1 else 0
            if i >= depth:
                return bv(i + 1)
        return None
    return _rebind(t, leaf, 0)


def inst(t, el):
    """The body of a binder for the element el."""
    def leaf(x, depth):
        if isinstance(x, tuple) and x and x[0] == "bv":
            i = x[1] if len(x) > 1 else 0
            if i == depth:
                return el
            if i > depth:
                return bv(i - 1)
        return None
    return _rebind(t, leaf, 0)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t[0] == "num":
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == "bool":
        return {(): Fraction(int(t[1]))} if t[1] else {}
    if t[0] == "poly":
        return dict(t[1])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return tuple((tkey(b), e) for b, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(p.items(), key=lambda mc: (_mkey(mc[0]), mc[1]))))


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for b, e in m1 + m2:
        d[b] = d.get(b, 0) + e
    return tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda be: (tkey(be[0]), be[1])))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 200:
        return ("mul", a, b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def inv(b):
    p = to_poly(b)
    if not p:
        return ("div0",)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((t, -e) for t, e in m): 1 / c})
    # normalise the leading coefficient to one
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    c = items[0][1]
    base = from_poly({m: k / c for m, k in p.items()})
    return from_poly({((base, -1),): 1 / c})


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    if n == 0:
        return num(1)
    if n < 0:
        return inv(power(a, -n))
    r = num(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def neg_const(t):
    return t[0] == "num" and t[1] < 0


# ---------------------------------------------------------------- atoms
def _scale(p, sign_free):
    d = to_poly(p)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    # leading non-constant monomial decides the scale
    lead = next((c for m, c in items if m != ()), items[0][1] if items else 1)
    k = lead if sign_free else abs(lead)
    return from_poly({m: c / k for m, c in d.items()})


def lt0(p):
    if p[0] == "num":
        return ("bool", p[1] < 0)
    return ("lt0", _scale(p, False))


def eq0(p):
    if p[0] == "num":
        return ("bool", p[1] == 0)
    return ("eq0", _scale(p, True))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] in ("num", "poly") or b[0] in ("num", "poly"):
        other = b if a[0] in ("num", "poly") else a
        if other[0] in ("str", "none"):
            return FALSE
        if a[0] == "len" and b == num(0):
            return bnot(("truth", a[1]))
        if b[0] == "len" and a == num(0):
            return bnot(("truth", b[1]))
        return eq0(sub(a, b))
    if is_const(a) and is_const(b):
        return FALSE
    if (a[0] in ATOM_OPS or a[0] == "not") and (b[0] in ATOM_OPS or b[0] == "not") and "bool" not in (a[0], b[0]):
        return iff(a, b)
    if a == NONE:
        return isnone(b)
    if b == NONE:
        return isnone(a)
    if a[0] == "bool" or b[0] == "bool":
        x, c = (b, a) if a[0] == "bool" else (a, b)
        return truth(x) if c[1] else bnot(truth(x))
    if tkey(b) < tkey(a):
        a, b = b, a
    return ("eq", a, b)


NOT_NONE = {"num", "str", "bool", "poly", "obj", "list", "tuple", "dict", "set", "closure", "bound",
            "func", "class", "fstr", "lt0", "eq0", "eq", "isnone", "in", "truth", "now", "new", "gen",
            "self", "partial", "supermeth", "idx", "isinstance", "exists", "range", "sorted"}


def iff(a, b):
    flip = False
    if a[0] == "not":
        a, flip = a[1], not flip
    if b[0] == "not":
        b, flip = b[1], not flip
    if tkey(b) < tkey(a):
        a, b = b, a
    r = TRUE if a == b else ("iff", a, b)
    return bnot(r) if flip else r


def isnone(a):
    if a == NONE:
        return TRUE
    if a[0] in NOT_NONE:
        return FALSE
    return ("isnone", a)


ATOM_OPS = {"lt0", "eq0", "eq", "isnone", "in", "isinstance", "hasattr", "exists", "truth", "bool", "callable",
            "subset", "iff"}


def bnot(a):
    if a[0] == "bool":
        return ("bool", not a[1])
    if a[0] == "not":
        return a[1]
    return ("not", a)


def truth(t):
    """The boolean atom telling whether value t is truthy."""
    o = t[0]
    if o == "bool":
        return t
    if o == "none":
        return FALSE
    if o == "num":
        return ("bool", t[1] != 0)
    if o == "str":
        return ("bool", t[1] != "")
    if o == "not" or o in ATOM_OPS:
        return t
    if o == "poly":
        return bnot(eq0(t))
    if o == "len":
        return ("truth", t[1])
    if o == "range" and all(isinstance(x, tuple) and x[0] == "num" for x in t[1:4]) and t[3][1] > 0:
        return ("bool", t[1][1] < t[2][1])
    if o in ("closure", "bound", "func", "class", "partial", "gen", "new", "supermeth"):
        return TRUE
    if o in ("tuple",):
        return ("bool", len(t[1]) > 0) if all(s[0] != "splat" for s in t[1]) else ("truth", t)
    if o in ("list", "set", "dict"):
        segs = t[1]
        if not segs:
            return FALSE
        if any(s[0] in ("item", "kv") for s in segs):
            return TRUE
        if len(segs) == 1 and segs[0][0] == "splat":
            return truth(segs[0][1])
        if len(segs) == 1 and segs[0][0] == "each" and segs[0][3] == ():
            return truth(segs[0][1])
        return ("truth", t)
    if o == "boolv":
        return t[1]
    return ("truth", t)


def show(t, depth=0):
    """Readable rendering for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    o = t[0]
    if o == "num":
        return str(t[1]) if t[1].denominator == 1 else str(float(t[1]))
    if o in ("str",):
        return repr(t[1])
    if o == "bool":
        return str(t[1])
    if o == "none":
        return "None"
    if o == "param":
        return t[1]
    if o == "self":
        return "self"
    if o == "attr":
        return f"{show(t[1])}.{t[2]}"
    if o == "vol":
        return f"{show(t[1])}.{t[2]}"
    if o == "now":
        return "now" if t[1] == "E0" else f"now@{_site(t[1])}"
    if o in ("res", "obs"):
        recv = show(t[3]) + "." if t[3] else ""
        return f"{recv}{t[2]}({', '.join((k + '=' if k else '') + show(v) for k, v in t[4])})"
    if o == "call":
        return f"{t[1]}({', '.join(show(a) for a in t[2])}{''.join(', ' + k + '=' + show(v) for k, v in t[3])})"
    if o == "mcall":
        return f"{show(t[1])}.{t[2]}({', '.join((k + '=' if k else '') + show(v) for k, v in t[3])})"
    if o == "poly":
        parts = []
        for m, c in t[1]:
            f = [show(b) + (f"^{e}" if e != 1 else "") for b, e in m]
            if c != 1 or not f:
                f = [str(c) if c.denominator == 1 else str(float(c))] + f
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")"
    if o == "lt0":
        return f"{show(t[1])} < 0"
    if o == "eq0":
        return f"{show(t[1])} == 0"
    if o == "eq":
        return f"{show(t[1])} == {show(t[2])}"
    if o == "isnone":
        return f"{show(t[1])} is None"
    if o == "truth":
        return f"bool({show(t[1])})"
    if o == "not":
        return f"not ({show(t[1])})"
    if o == "in":
        return f"{show(t[1])} in {show(t[2])}"
    if o == "key":
        return f"{show(t[1])}[{show(t[2])}]"
    if o == "at":
        return f"{show(t[1])}[i{'%+d' % t[3] if t[3] else ''}]"
    if o == "idx":
        return "i"
    if o == "stale":
        return f"old({show(t[1])})"
    if o in ("list", "tuple", "set", "dict"):
        return f"{o}({', '.join(_seg(s) for s in t[1])})"
    if o == "class":
        return t[1].split(".")[-1]
    if o in ("ext", "builtin", "module", "global"):
        return t[1]
    if o == "phi":
        return f"loopvalue({t[2][-1] if isinstance(t[2], tuple) else t[2]})"
    if o == "anyof":
        return "(" + " or ".join(" and ".join(show(c) for c in k) for k in t[1]) + ")"
    if o == "fstr":
        return "f'" + "".join(p[1] if p[0] == "str" else "{" + show(p) + "}" for p in t[1]) + "'"
    if o == "new":
        return f"{t[2].split('.')[-1]}({', '.join(str(k) + '=' + show(v) for k, v in t[3])})"
    if o == "bv":
        return "x" if len(t) == 1 else f"x{t[1]}"
    if o == "exists":
        return f"any({show(t[2])} for x in {show(t[1])})"
    if not isinstance(o, str):
        return "(" + ", ".join(show(c) if isinstance(c, tuple) and c else str(c) for c in t) + ")"
    return o + "(" + ", ".join(show(c) if isinstance(c, tuple) and c else str(c) for c in t[1:]) + ")"


def _seg(s):
    if not isinstance(s, tuple) or not s:
        return str(s)
    if s[0] == "item":
        return show(s[1])
    if s[0] == "kv":
        return f"{show(s[1])}: {show(s[2])}"
    if s[0] == "splat":
        return "*" + show(s[1])
    if s[0] == "each":
        c = "".join(f" if {show(a)}" for a in s[3])
        return f"{_seg(s[2])} for x in {show(s[1])}{c}"
    return show(s)


def _site(s):
    try:
        return f"line {s[-1][0]}" if isinstance(s[-1], tuple) else str(s)
    except Exception:
        return str(s)
