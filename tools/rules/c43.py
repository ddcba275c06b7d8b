"""Dataflow over data frames: which rows and columns of which object end up in the exports.

The functions that export concepts, activities, resources and ranges are summarised as terms and evaluated in an abstract domain of data
frames: rows of the flattened activities, of the log of an object, or pairs of them.  Values of a row are evaluated for every state of
the concepts an activity can have; the ranges of an object for every number of its START and STOP entries up to a small bound.
"""

from fractions import Fraction
from itertools import product

import terms as T
from lib import AnalysisBroken, Violation, fail, imprecise, subterms, undecided

from .c42 import function, listed, plain, show
from .tables import DROP, Frame, Tables, arg, kw, strings

LEVEL = "other"
ASSUMPTIONS = ["pandas: columns, selections, merges and sorting of data frames work as documented",
               "an object with a concept (processor, mover, origin, destination) has an id and a name for it"]
ROLES = ("processor", "mover", "origin", "destination")
TREE = ("ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel")
OPAQUE = ("get_tree_as_list", "get_log_dataframe", "get_ranges_dataframe")
CONDITIONS = ("truth", "not", "hasattr", "isnone", "eq", "is", "anyof")
ACT, ELEM = ("activity",), ("elem",)


def setup(e):
    e.frames = True
    e.want_steps = True
    e.sets = True
    e.lift = True
    e.EFFECTS = frozenset(["to_csv"])


def call(t, name):
    """Arguments of an opaque call of a function, or None"""
    return dict(t[4]) if isinstance(t, tuple) and t and t[0] == "res" and t[2] == name and len(t) == 5 else None


def compared(m):
    """x > k as a method call"""
    if m[0] == "mcall" and m[2] in ("gt", "lt") and len(m[3]) == 1:
        return T.lt0(T.sub(m[1], m[3][0][1]) if m[2] == "lt" else T.sub(m[3][0][1], m[1]))
    return m


class Raises(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------- rows
class Row:
    """Values of an activity with the given concepts: role -> "absent", "none" or "set" """

    def __init__(self, state, same=False):
        self.state, self.same = state, same

    def lookup(self, d, k):
        """An entry of a dict made of the activities"""
        if len(d[1]) != 1 or d[1][0][0] != "each" or d[1][0][2][0] != "kv":
            return None
        _, X, (_, key, value), conds = d[1][0]
        key, value, k = self.ev(T.inst(key, ACT)), self.ev(T.inst(value, ACT)), self.ev(k)
        if key != k or not all(self.holds(T.inst(c, ACT)) for c in conds):
            return None
        if key == value or key[0] == "attr" and key[2] == "id" and (value == key[1] or value[:2] == key[:2]):
            return value
        if key[0] == "attr" and key[2] == "name" and (value == key[1] or value[0] == "attr" and value[1] == key[1]):
            return ("of another with its name", value)
        return None

    def ev(self, t):
        if t[0] in ("str", "num", "bool", "none"):
            return t
        if t == ACT:
            return t
        if t[0] == "cases":
            for cond, v in t[1]:
                if self.holds(cond):
                    return self.ev(v)
            undecided(f"the value {T.show(t)[:150]}")
        if t[0] == "or" or t[0] == "and":
            ys = t[1] if len(t) == 2 and t[1] and isinstance(t[1][0], tuple) else t[1:]
            for y in ys:
                v = self.ev(y)
                if self.true(v) == (t[0] == "or"):
                    return v
            return v
        if t[0] == "attr":
            b = self.ev(t[1])
            if b == ACT and t[2] in ROLES:
                s = self.state[t[2]]
                if s == "absent":
                    raise Raises(t[2])
                return T.NONE if s == "none" else ("concept", t[2])
            if b == T.NONE:
                raise Raises(t[2])
            if t[2] == "__name__" and b[0] == "class":
                return ("classname", b[1])
            if t[2] == "__class__":
                return ("class", b)
            return ("attr", b, t[2])
        if t[0] == "call" and t[1] == "type" and len(t[2]) == 1:
            return ("class", self.ev(t[2][0]))
        if t[0] == "call" and t[1] == "getattr" and len(t[2]) in (2, 3) and t[2][1][0] == "str":
            b = self.ev(t[2][0])
            if b == ACT and t[2][1][1] in ROLES and self.state[t[2][1][1]] == "absent" and len(t[2]) == 3:
                return self.ev(t[2][2])
            return self.ev(("attr", t[2][0], t[2][1][1]))
        if t[0] in ("list", "tuple") and all(s[0] == "item" for s in t[1]):
            return ("tuple", tuple(("item", self.ev(s[1])) for s in t[1]))
        if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "__mro__" and t[2][0] == "num":
            b = self.ev(t[1][1])
            if b[0] == "class":
                return b if t[2] == T.num(0) else ("class", ("str", "a base class"))
        if t[0] in ("key", "dget") and t[1][0] == "dict":
            v = self.lookup(t[1], t[2])
            if v is not None:
                return v
        if t[0] in CONDITIONS:
            return T.const(self.holds(t))
        undecided(f"the value {T.show(t)[:150]}")

    def true(self, v):
        if v == T.NONE or v == T.FALSE or v == ("str", ""):
            return False
        if v[0] == "bool":
            return v == T.const(True)
        if v[0] in ("concept", "activity", "classname") or v[0] == "bool" or v[0] == "str":
            return True
        undecided(f"whether {T.show(v)[:100]} is true")

    def holds(self, c):
        if c[0] == "not":
            return not self.holds(c[1])
        if c[0] == "anyof":
            return any(all(self.holds(y) for y in k) for k in c[1])
        if c[0] == "cases":
            for cond, v in c[1]:
                if self.holds(cond):
                    return self.holds(v) if v[0] in CONDITIONS else self.true(self.ev(v))
            undecided(f"the condition {T.show(c)[:150]}")
        if c[0] in ("and", "or"):
            ys = c[1] if len(c) == 2 and c[1] and isinstance(c[1][0], tuple) else c[1:]
            return all(self.holds(y) for y in ys) if c[0] == "and" else any(self.holds(y) for y in ys)
        if c[0] == "hasattr":
            b = self.ev(c[1])
            if b == ACT and c[2] in ROLES:
                return self.state[c[2]] != "absent"
            if c[2] in ("id", "name") and (b == ACT or b[0] == "concept"):
                return True
            if b == T.NONE and c[2] in ("id", "name"):
                return False
            if b == ACT and c[2] == "sub_processes" and c[2] in self.state:
                return self.state[c[2]]
            undecided(f"the condition {T.show(c)[:150]}")
        if c[0] == "truth":
            return self.true(self.ev(c[1]))
        if c[0] == "isnone":
            return self.ev(c[1]) == T.NONE
        if c[0] in ("eq", "is"):
            x, y = self.ev(c[1]), self.ev(c[2])
            if x == y or T.NONE in (x, y):
                return x == y
            if x[0] == y[0] == "concept":       # may be the same concept
                return self.same
            if ACT in (x, y) and "concept" in (x[0], y[0]):
                return False
        if c[0] in ("bool",):
            return c == T.const(True)
        undecided(f"the condition {T.show(c)[:150]}")


def states(terms, kinds=("absent", "none", "set")):
    """The states of the roles that the terms are about"""
    about = [r for r in ROLES if any(x == r or isinstance(x, tuple) and x[:1] == ("str",) and x[1] == r for t in terms for x in flat(t))]
    for vs in product(kinds, repeat=len(about)):
        d = {r: "set" for r in ROLES}
        d.update(zip(about, vs))
        yield d


def flat(t):
    if isinstance(t, tuple):
        yield t
        for c in t:
            yield from flat(c)
    else:
        yield t


# ------------------------------------------------------------------------------------------------------------- frames
def duration(b, secs):
    """The value of a term about a duration of so many seconds"""
    if b[0] == "num":
        return b[1]
    if b == ("mcall", ("bv",), "total_seconds", ()) or b[0] == "res" and b[2] == "total_seconds" and b[3] == ("bv",):
        return secs
    if b[0] == "attr" and b[1] == ("bv",) and b[2] in ("days", "seconds", "microseconds"):
        return {"days": secs // 86400, "seconds": secs % 86400 // 1, "microseconds": secs % 1 * 1000000}[b[2]]
    if b[0] == "poly":
        r = 0
        for m, k in T.to_poly(b).items():
            for x, e in m:
                k *= duration(x, secs) ** e
            r += k
        return r
    if b[0] == "call" and b[1] in ("int", "round", "float") and len(b[2]) == 1 and not b[3]:
        x = duration(b[2][0], secs)
        return x if b[1] == "float" else int(x) if b[1] == "int" else round(x)
    undecided(f"the duration {T.show(b)[:150]}")


def alternatives(t):
    return [y for _, v in t[1] for y in alternatives(v)] if t[0] == "cases" else [t]


class Exports(Tables):
    """Frames of the flattened activities, of the log table of an object, and of ranges"""

    def __init__(self, log=None, tree=None):
        super().__init__(self.source)
        self.log, self.tree = log, tree

    def source(self, t):
        if t[0] == "call" and t[1] in ("pandas.DataFrame", "pandas.DataFrame.from_dict") and len(t[2]) + len(t[3]) == 1:
            a = call(arg(t, 0, "data") or T.NONE, "get_tree_as_list")
            if a is not None:
                if a.get("treelist") != ("param", self.tree) or a.get("depth") not in (None, T.num(0)):
                    undecided("the flattened activities")
                return Frame(("tree",), {c: ("src", c) for c in TREE + ("activity",)})
        a = call(t, "get_log_dataframe")
        if a is not None:
            return Frame(("log",), {c: ("src", c) for c in ("Timestamp", "ActivityState", "Activity")}, rest=("others",))
        a = call(t, "get_ranges_dataframe")
        if a is not None:
            x = self.activity(a.get("simulation_object", T.NONE))
            if a.get("id_map", T.NONE) != T.NONE:
                fail("the ranges of an activity are not found by its id")
            if x is None:
                undecided(f"whose ranges {T.show(t)[:150]} are")
            return Frame(("ranges",), {c: ("src", c) for c in ("trip", "TimestampStart", "TimestampStop", "Activity", "TimestampDt")})
        if t[0] == "call" and t[1] in ("pandas.DataFrame", "pandas.DataFrame.from_dict") and len(t[2]) + len(t[3]) == 1:
            d = arg(t, 0, "data")
            if d[0] == "dict" and all(s[0] == "kv" and s[1][0] == "str" and s[2][0] in ("list", "tuple") and len(s[2][1]) == 1
                                      and s[2][1][0][0] == "item" for s in d[1]):
                return Frame(("one", t), {s[1][1]: ("const", s[2][1][0][1]) for s in d[1]})
        return None

    def ev(self, t):
        if t[0] == "mcall" and t[2] == "groupby":
            self.dunno(t)
        return super().ev(t)

    def is_table(self, t):
        while t[0] in ("copy", "setcol", "mcall", "key", "attr", "slice"):
            if self.leaf(t) is not None:
                return True
            t = t[1]
        return self.leaf(t) is not None or t[0] == "call" and t[1] in ("pandas.DataFrame", "pandas.concat", "pandas.DataFrame.from_dict")

    def activity(self, t):
        """Is the term the activity of the row of a loop over the flattened activities?"""
        return ACT if t == ACT else None

    def element(self, X):
        """The element of a loop over activities of the flattened tree: (term with bv of the activity, frame), or None"""
        X = listed(X)
        if X[0] == "set" and len(X[1]) == 1 and X[1][0][0] == "splat":     # every activity is there once
            X = listed(X[1][0][1])
        c = self.column(X)
        if c is not None and c[0].base == ("tree",) and c[1] == ("src", "activity"):
            return ACT, c[0]
        if X[0] == "key" and call(X[1], "get_tree_as_list") is not None and X[2] == ("str", "activity"):
            return ACT, Frame(("tree",), {"activity": ("src", "activity")})
        if X[0] == "mcall" and X[2] in ("iterrows", "itertuples") and not X[3] and self.is_table(X[1]):
            f = self(X[1])
            if f.base == ("tree",):
                return (X[2], f), f
        return None

    def at(self, body, X):
        """The body of a loop over the flattened activities, for one activity"""
        e = self.element(X)
        if e is None:
            undecided(f"the rows {T.show(X)[:150]}")
        if e[0] == ACT:
            return T.inst(body, ACT), e[1]
        kind, f = e[0]
        row = ("key", ELEM, T.num(1)) if kind == "iterrows" else ELEM
        t = T.inst(body, ELEM)

        def go(x):
            if not isinstance(x, tuple):
                return x
            name = x[2] if x[:1] == ("attr",) and x[1] == row else x[2][1] if x[:1] == ("key",) and x[1] == row and x[2][0] == "str" else None
            if name is not None:
                v = f.cols.get(name)
                if v == ("src", "activity"):
                    return ACT
                if v == ("src", "ActivityID"):
                    return ("attr", ACT, "id")
                if v == ("src", "ActivityName"):
                    return ("attr", ACT, "name")
                if v == ("src", "ActivityClass"):
                    return ("attr", ("call", "type", (ACT,), ()), "__name__")
                if v is not None and v[0] == "row":
                    return v[1]
                if v is not None:
                    return ("column", name)
                undecided(f"the column {name} of a row")
            return tuple(go(c) for c in x)
        t = go(t)
        if ELEM in set(subterms(t)):
            undecided(f"the row {T.show(t)[:150]}")
        return t, f

    def computed(self, v, f, t):
        v = listed(v)
        if v in (("list", ()), ("tuple", ())):      # there are no rows
            return ("empty",)
        if v[0] in ("list", "tuple") and len(v[1]) == 1 and v[1][0][0] == "each":
            _, X, seg, conds = v[1][0]
            if conds or seg[0] != "item":
                undecided(f"the column {T.show(v)[:150]}")
            if f.base == ("tree",):
                x, g = self.at(seg[1], X)
                if (g.base, g.preds, g.order) != (f.base, f.preds, f.order):
                    undecided(f"the column of another table {T.show(v)[:150]}")
                return ("row", x)
            d = self.difference(X, f)
            it = {y for y in subterms(seg[1]) if y[:1] == ("it",)}
            if d is None and self.same(X, f) and len(it) == 1 and ("bv",) not in set(subterms(seg[1])):
                lo = T.sub(seg[1], *it)
                if lo[0] == "num":
                    return ("count", lo)
            if d is not None:
                for secs in (7, 86400, 3 * 86400 + 5, Fraction(201, 2), 90000 + Fraction(1, 4)):
                    got = duration(seg[1], secs)
                    if got != secs:
                        fail(f"for a range of {float(secs)} s the duration is {float(got)}")
                return ("seconds",) + d
        if v[0] == "mcall" and v[2] == "total_seconds" and v[1][0] == "attr" and v[1][2] == "dt":
            d = self.difference(v[1][1], f)
            if d is not None:
                return ("seconds",) + d
        if v[0] == "attr" and v[2] in ("seconds", "days") and v[1][0] == "attr" and v[1][2] == "dt" and self.difference(v[1][1], f) is not None:
            fail(f"of the duration of a range only the {v[2]} are given")
        if v[0] == "iterator" and v[1] == "range" or v[0] == "call" and v[1] == "numpy.arange":
            lo, hi, step = v[2:5] if v[0] == "iterator" else (v[2] + (T.num(1),))[:3] if len(v[2]) > 1 else (T.num(0),) + v[2] + (T.num(1),)
            n = T.sub(hi, lo)
            if step == T.num(1) and lo[0] == "num" and n[0] == "len" and self.same(n[1], f):
                return ("count", lo)
            if step == T.num(-1) and T.neg(n)[0] == "len" and self.same(T.neg(n)[1], f):
                return ("count", ("descending",))
        if v[0] in ("mcall", "res") and v[2] in ("ffill", "bfill", "shift", "cumsum", "diff", "rank", "rolling") \
                and self.column(v[1] if v[0] == "mcall" else v[3]) is not None:
            return ("of other rows", v[2])
        undecided(f"the column {T.show(v)[:150]}")

    def same(self, t, f):
        if not self.is_table(t):
            return False
        g = self(t)
        return (g.base, g.preds, g.order) == (f.base, f.preds, f.order)

    def difference(self, t, f):
        """(value, value) of a column that is the difference of two columns of f"""
        c = self.column(t)
        if c is not None and c[1][0] == "difference" and (c[0].base, c[0].preds) == (f.base, f.preds):
            return c[1][1:]
        t = listed(t)
        if t[0] != "poly":
            return None
        p = [(m[0][0], k) for m, k in T.to_poly(t).items() if len(m) == 1 and m[0][1] == 1]
        if len(p) != 2 or sorted(k for _, k in p) != [-1, 1]:
            return None
        vs = {}
        for x, k in p:
            c = self.column(x)
            y = self.column(x[1]) if c is None and x[0] == "mcall" and x[2] in ("min", "max", "mean") and not x[3] else None
            if y is not None and (y[0].base, y[0].preds) == (f.base, f.preds):
                vs[int(k)] = (x[2], y[1])
                continue
            if c is None or (c[0].base, c[0].preds) != (f.base, f.preds):
                return None
            vs[int(k)] = c[1]
        return vs[1], vs[-1]

    def m_sort_values(self, t):
        named, pos = kw(t)
        if named.get("ascending") == T.FALSE:
            f = super().m_sort_values(("mcall", t[1], t[2], tuple(a for a in t[3] if a[0] != "ascending")))
            return f.but(order=((tuple(("descending", c) for c in f.order[0][0]), f.order[0][1]),) + f.order[1:])
        return super().m_sort_values(t)

    def value(self, v, f, t):
        if v == ("list", ()):
            return ("empty",)
        d = self.difference(v, f) if v[0] == "poly" else None
        if d is not None:
            return ("difference",) + d
        return super().value(v, f, t)

    def mask(self, m, f):
        m = listed(m)
        if m[0] == "res" and m[2] in ("isna", "isnull", "notna", "notnull") and not m[4]:
            m = ("mcall", m[3], m[2], ())
        if m[0] == "eq0":
            cs, k0 = [], 0
            for mono, k in T.to_poly(m[1]).items():
                c = self.column(mono[0][0]) if len(mono) == 1 and mono[0][1] == 1 else None
                if mono == ():
                    k0 = k
                elif c is not None and c[0].base == f.base and not c[0].preds - f.preds:
                    cs.append((c[1], k))
                else:
                    self.dunno(m, "the rows selected by")
            if len(cs) == 1:
                return {(cs[0][0], frozenset([T.num(-k0 / cs[0][1])]), True)}
        m = compared(m)
        if m[0] == "lt0":
            cs, k0 = [], 0
            for mono, k in T.to_poly(m[1]).items():
                c = self.column(mono[0][0]) if len(mono) == 1 and mono[0][1] == 1 else None
                if mono == ():
                    k0 = k
                elif c is not None and c[0].base == f.base and not c[0].preds - f.preds:
                    cs.append((c[1], k))
                else:
                    self.dunno(m, "the rows selected by")
            if len(cs) == 1 and cs[0][0][0] in ("src", "seconds", "count") and cs[0][0] not in (("src", "activity"),):
                if all(k0 + cs[0][1] * x < 0 for x in (0, 1, 2, 1000, 10 ** 9)):
                    self.dunno(m, "the rows selected by")
                return {(cs[0][0], frozenset([m]), True)}
        if m[0] == "mcall" and m[2] in ("isna", "isnull", "notna", "notnull") and not m[3]:
            c = self.column(m[1])
            if c is not None and c[0].base == f.base and not c[0].preds - f.preds:
                if m[2] in ("notna", "notnull") and c[1] in (("src", "TimestampStart"), ("L", ("src", "Timestamp")), ("src", "ActivityID")):
                    return set()
                return {(("missing", c[1]), frozenset(), m[2] in ("isna", "isnull"))}
        if m[0] == "op" and m[1] == "BitOr":
            a, b = self.mask(m[2], f), self.mask(m[3], f)
            if not a or not b:
                return set()
            if {x[0] for x in a} != {x[0] for x in b}:      # rows for which neither holds are left out
                return {(("either",), frozenset(a | b), True)}
        if m[0] == "mcall" and m[2] in ("map", "apply") and len(m[3]) == 1 and m[3][0][1][0] == "fun":
            X, body = m[1], m[3][0][1][1]
            if self.element(X) is not None:
                x, g = self.at(body, X)
                if (g.base, g.preds, g.order) == (f.base, f.preds, f.order):
                    return {("row", x, True)}
        if m[0] in ("list", "tuple") and len(m[1]) == 1 and m[1][0][0] == "each":
            _, X, seg, conds = m[1][0]
            if not conds and seg[0] == "item":
                x, g = self.at(seg[1], X)
                if (g.base, g.preds, g.order) == (f.base, f.preds, f.order):
                    return {("row", x, True)}
        return super().mask(m, f)

    def below(self, segs, axis, named, t):
        if axis is not None and axis not in (T.num(0), ("str", "index")):
            self.dunno(t)
        if len(segs) == 2 and all(s[0] == "item" for s in segs):
            f, g = self(segs[0][1]), self(segs[1][1])
            if g.base[0] == "one":
                return f.but(base=("plus", f.base, tuple(sorted(g.cols.items()))), index="seq")
        if len(segs) == 1 and segs[0][0] == "each" and segs[0][2][0] == "item":
            _, X, seg, conds = segs[0]
            x, g = self.at(("tuple", (("item", seg[1]), ("item", ("tuple", tuple(("item", c) for c in conds))))), X)
            fs = [self(y) for y in alternatives(x[1][0][1])]
            f = fs[0]
            for c in x[1][1][1][1]:
                if any(y[:1] == ("column",) for y in subterms(c[1]) if isinstance(y, tuple)):
                    fail("the ranges of some activities are left out")
                self.nonempty(c[1], f)
            if any((h.rows(), h.cols) != (f.rows(), f.cols) for h in fs):
                self.dunno(t)
            if g.preds:
                fail("the ranges of some activities are left out")
            if f.base == ("ranges",) and f.preds:
                fail("some ranges of an activity are left out")
            if f.base == ("ranges",) and not f.preds and not g.preds:
                return f.but(order=(), index="seq")
        self.dunno(t)

    def m_drop_duplicates(self, t):
        f = self(t[1])
        if f.base[0] in ("ranges", "pair", "log"):
            fail("ranges or entries are taken for the same")
        by = strings(arg(t, 0, "subset"))
        if f.base == ("tree",) and by and all(n in f.cols for n in by) and not any(f.cols[n] in (("src", "ActivityID"), ("src", "activity")) for n in by):
            return f.but(preds=f.preds | {("one of each", tuple(by), True)})
        self.dunno(t)

    def m_dropna(self, t):
        f = self(t[1])
        if f.base[0] in ("ranges", "pair"):
            fail("unfinished ranges are left out")
        self.dunno(t)

    def nonempty(self, c, f):
        """A condition that all frames with rows meet"""
        def val(c, n):
            if c[0] == "not":
                return not val(c[1], n)
            if c[0] == "attr" and c[2] == "empty" and self.same(c[1], f):
                return n == 0
            if c[0] == "truth":
                if c[1][0] == "attr" and c[1][2] == "empty":
                    return val(c[1], n)
                if c[1][0] == "len":
                    return number(c[1], n) != 0
            if c[0] in ("lt0", "eq0"):
                x = number(c[1], n)
                return x < 0 if c[0] == "lt0" else x == 0
            undecided(f"the condition {T.show(c)[:150]}")

        def number(x, n):
            r = 0
            for m, k in T.to_poly(x).items():
                if m == ():
                    r += k
                elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "len" and self.same(m[0][0][1], f):
                    r += k * n
                else:
                    undecided(f"the condition {T.show(x)[:150]}")
            return r
        if not all(val(c, n) for n in (1, 2, 3)):
            fail("activities with ranges are left out")

    def m_merge(self, t):
        named, pos = kw(t)
        right = arg(t, 0, "right")
        how = arg(t, 1, "how") or ("str", "inner")
        on = strings(arg(t, 2, "on")) or strings(named.get("left_on"))
        ron = strings(named.get("right_on")) or on
        if right is None or on is None or len(on) != 1 or len(ron) != 1 or how[0] != "str" or \
                set(named) - {"right", "how", "on", "left_on", "right_on", "validate", "copy", "sort"}:
            self.dunno(t)
        if named.get("sort", T.FALSE) != T.FALSE:
            self.dunno(t)
        L, R = self(t[1]), self(right)
        a, b = L.cols.get(on[0]), R.cols.get(ron[0])
        if a is None or b is None:
            self.dunno(t, "the key of")
        cols = {}
        for n, v in L.cols.items():
            cols[n + "_x" if n in R.cols and not (n == on[0] == ron[0]) else n] = ("L", v)
        for n, v in R.cols.items():
            if n == on[0] == ron[0]:
                continue
            cols[n + "_y" if n in L.cols else n] = ("R", v)
        return Frame(("pair", L.rows(), R.rows(), how[1], a, b), cols, index="seq")

    def m_reset_index(self, t):
        return super().m_reset_index(t)


def written(ck, G, check, ofile):
    """Every path writes what it returns to the file, if one is given; check(frame term, facts, columns, state)"""
    n = [0, 0]

    def step(s, e):
        if e.kind == "call" and e.name == "to_csv" and e.recv is not None:
            if s:
                fail("the file is written twice", e)
            return (e.recv, tuple(sorted((e.args or {}).items())), e)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        asked = st.facts.get(("truth", ofile))
        if asked is None and st.facts.get(("isnone", ofile)) is not None:
            asked = not st.facts[("isnone", ofile)]
        if any(x is True and a[0] in ("eq", "is") and set(a[1:3]) == {ofile, ("str", "")} for a, x in st.facts.items()):
            asked = False
        check(v, st.facts, None)
        if not s:
            if asked is not False:
                fail("no file is written" if asked else "no file is written, whether asked for or not")
            return
        n[1] += 1
        recv, args, e = s
        args = dict(args)
        if asked is False:
            fail("a file is written without a name", e)
        target = args.pop("path_or_buf", args.pop("0", None))
        if target != ofile:
            if target is None or imprecise(target):
                undecided("the file written")
            fail(f"the file written is {T.show(target)[:80]}", e)
        cols = args.pop("columns", None)
        if cols is not None:
            cols = strings(cols)
            if cols is None:
                undecided("the columns of the file")
        if args.pop("index", None) != T.FALSE:
            fail("the file has the labels of the rows as an additional column", e)
        if args.pop("header", T.const(True)) != T.const(True):
            fail("the file has no header", e)
        if args.pop("mode", ("str", "w")) != ("str", "w"):
            fail("the file is not written anew", e)
        if args:
            undecided(f"the file is written with {sorted(args)}")
        check(recv, st.facts, cols if cols is not None else ())

    ck.walk(G, (), step, at_exit)
    if not n[0]:
        raise AnalysisBroken("nothing is exported")
    if not n[1]:
        fail("no file is ever written")
    return n[0]


def part(v, key):
    """The table that v is, or has some rows of"""
    while True:
        if v[0] == "copy" or v[0] == "mcall" and (v[2] in ("copy", "sort_values") or v[2] == "reset_index" and dict(v[3]).get("drop") == T.const(True)):
            v = v[1]
        elif v[0] == "slice" and all(x[0] in ("num", "none") for x in v[2:]) and v[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE)):
            fail("rows are left out by their place")
        elif v[0] == "mcall" and v[2] in DROP and (v[2] not in ("head", "tail") or all(x[0] == "num" for _, x in v[3])):
            fail(f"rows are left out ({v[2]})")
        elif v[0] == "mcall" and v[2] == "drop_duplicates" and not set(dict(v[3])) - {"", "0", "subset", "keep"}:
            by = strings(arg(v, 0, "subset"))
            if by and not set(key) <= set(by):
                fail(f"rows are left out that have the same {' and '.join(by)} as another")
            undecided("which rows are the same")
        else:
            return v


# ------------------------------------------------------------------------------------------------------------- concepts
def concepts(ck, namespace):
    f = function(ck, "get_concepts")
    G = ck.graph(None, None, fn=f, setup=setup, opaque=OPAQUE, bindings={"namespace": ("str", namespace)})
    coll = ("param", f.node.args.args[0].arg)

    def check(v, facts, columns):
        v = part(plain(v), (namespace + "ID",))
        isdict = facts.get(("isinstance", coll, "dict"))
        orders = set()
        if v[0] != "call" or v[1] not in ("pandas.DataFrame", "pandas.DataFrame.from_dict") or len(v[2]) + len(v[3]) != 1:
            undecided(f"the concepts are {T.show(v)[:150]}")
        d = arg(v, 0, "data")
        cols = {}
        if d[0] == "dict" and all(s[0] == "kv" and s[1][0] == "str" for s in d[1]):
            for s in d[1]:
                x = listed(s[2])
                if x[0] not in ("list", "tuple") or len(x[1]) != 1 or x[1][0][0] != "each":
                    undecided(f"the column {T.show(s[2])[:150]}")
                cols[s[1][1]] = (x[1][0][1], x[1][0][2], x[1][0][3])
        elif d[0] == "list" and len(d[1]) == 1 and d[1][0][0] == "each" and d[1][0][2][0] == "item" and d[1][0][2][1][0] == "dict" \
                and all(s[0] == "kv" and s[1][0] == "str" for s in d[1][0][2][1][1]):
            for s in d[1][0][2][1][1]:
                cols[s[1][1]] = (d[1][0][1], ("item", s[2]), d[1][0][3])
        else:
            undecided(f"the concepts are {T.show(v)[:150]}")
        want = {namespace + "Name": ("attr", ACT, "name"), namespace + "ID": ("attr", ACT, "id"), namespace + "Class": ("classname", ACT)}
        if columns:
            cols = {n: c for n, c in cols.items() if n in columns}
        for n, w in want.items():
            if n not in cols:
                fail(f"there is no column {n} with namespace {namespace!r}")
            X, seg, conds = cols[n]
            if conds:
                fail("some concepts are left out")
            if seg[0] != "item":
                undecided(f"the column {n}")
            X = listed(X)
            order = ()
            while X[0] in ("sorted", "reversed"):
                order, X = order + ((X[0],) + X[2:],), X[1]
            orders.add(order)
            body = seg[1]
            if X == ("iterator", "values", coll) or X[:1] == ("mcall",) and X[1:3] == (coll, "values"):
                if isdict is not True:
                    undecided("when concepts are a dict")
            elif X == ("iterator", "items", coll):
                if isdict is not True:
                    undecided("when concepts are a dict")
                body = T.replace(body, ("key", ("bv",), T.num(1)), ("bv",))
            elif X == coll and isdict is True and T.mentions(body, ("key", coll, ("bv",))):
                body = T.replace(body, ("key", coll, ("bv",)), ("bv",))
            elif X == coll:
                if isdict is True:
                    fail("of a dict of concepts the keys are exported")
                if isdict is None:
                    fail("a dict of concepts is taken for a list")
            else:
                undecided(f"the concepts {T.show(X)[:100]}")
            got = Row({r: "set" for r in ROLES}).ev(T.inst(body, ACT))
            if got != w:
                fail(f"the column {n} is the {T.show(got)[:80]} of a concept" if got[0] != "attr" else f"the column {n} is the {got[2]} of a concept")
        if len(orders) > 1:
            fail("the columns are in different orders: a row mixes different concepts")

    return written(ck, G, check, ("param", "ofile"))


# ------------------------------------------------------------------------------------------------------------- activities
def activities(ck):
    f = function(ck, "get_activities")
    ps = [a.arg for a in f.node.args.args]
    G = ck.graph(None, None, fn=f, setup=setup, opaque=OPAQUE)
    ex = Exports(tree=ps[0])

    def check(v, facts, columns):
        t = ex(plain(v))
        if t.base != ("tree",) or t.preds:
            if t.preds:
                fail("some activities are left out")
            undecided("the rows of the activities")
        cols = t.cols
        if columns:
            miss = [c for c in columns if c not in cols]
            if miss:
                fail(f"the file has a column {miss[0]} that the table has not")
            cols = {c: cols[c] for c in columns}
        where = " of the file" if columns is not None else ""
        for c in TREE:
            if cols.get(c) != ("src", c):
                fail(f"the column {c}{where} is {show(cols[c])}" if c in cols else f"there is no column {c}{where}")
        for r in ROLES:
            for what, missing in (("ID", T.NONE), ("Name", ("str", ""))):
                n = r.capitalize() + what
                if n not in cols:
                    fail(f"there is no column {n}{where}")
                x = cols[n]
                if x == ("empty",):
                    continue
                if x[0] == "of other rows":
                    fail(f"the column {n} is made from that of other activities ({x[1]})")
                if x[0] != "row":
                    fail(f"the column {n} is {show(x)}") if x[0] in ("src", "const") else undecided(f"the column {n}")
                for state in states([x[1]]) :
                    has = {"absent": f"without {r}", "none": f"with {r} None", "set": f"with a {r}"}[state[r]]
                    try:
                        got = Row(state).ev(x[1])
                    except Raises:
                        fail(f"the {n} of an activity {has} raises an error")
                    want = ("attr", ("concept", r), what.lower()) if state[r] == "set" else missing
                    if got != want and not (want == T.NONE and got == ("str", "")) :
                        if imprecise(got):
                            undecided(f"the column {n}")
                        fail(f"the {n} of an activity {has} is {words(got)}")
        if columns is not None and "activity" in cols:
            fail("the file has the activities themselves")

    return written(ck, G, check, ("param", ps[1]))


def words(t):
    if t[0] == "attr" and t[1][0] == "concept":
        return f"the {t[2]} of its {t[1][1]}"
    if t[0] == "attr" and t[1] == ACT:
        return f"the {t[2]} of the activity"
    if t[0] == "of another with its name":
        return words(t[1]) + " or of one with the same name"
    if t[0] == "concept":
        return f"its {t[1]}"
    return T.show(t)[:80]


# ------------------------------------------------------------------------------------------------------------- resources
RES = ("ActivityID", "ActivityName", "ActivityClass", "ConceptID", "ConceptName", "ConceptMode")


def resources(ck):
    f = function(ck, "get_activity_resources")
    ps = [a.arg for a in f.node.args.args]
    G = ck.graph(None, None, fn=f, setup=setup, opaque=OPAQUE)
    ex = Exports(tree=ps[0])

    def rows(segs, state, same):
        """The rows of one activity with the given concepts"""
        out = []
        r = Row(state, same)
        for s in segs:
            if s[0] == "junk" and s[1] in G.runs:
                out += collected(s, r)
                continue
            if s[0] != "each":
                undecided(f"the rows {T.show(('list', (s,)))[:150]}")
            _, X, seg, conds = s
            x, g = ex.at(("tuple", (("item", ("tuple", tuple(("item", c) for c in conds))), ("item", seg[1] if seg[0] == "item" else ("list", (seg,))))), X)
            for p in g.preds:
                if p[0] != "row":
                    undecided("the activities with a row")
            if not all(r.holds(p[1]) == p[2] for p in g.preds) or not all(r.holds(c[1]) for c in x[1][0][1][1]):
                continue
            body = x[1][1][1]
            if seg[0] == "item":
                out.append(body)
            elif seg[0] == "cases":
                undecided("the rows of an activity")
            else:
                undecided(f"the rows {T.show(body)[:150]}")
        return out

    def collected(s, r):
        """The rows that an iteration of a loop adds for the activity"""
        _, L, k = s
        found = None
        for X, init, steps, at in G.runs[L]:
            X = plain(X)
            e = ex.element(X)
            if e is None or e[0] != ACT or e[1].preds:
                undecided(f"the rows of {T.show(X)[:150]}")
            el = ("at", X, L, 0)
            for facts, new, added, kind in steps:
                mine = [(T.replace(plain(a), el, ACT), v) for a, v in facts.items() if T.mentions(plain(a), el)]
                if not all(r.holds(a) == v for a, v in mine):
                    continue
                rows = []
                for seg in added.get(k) or ():
                    seg = T.replace(plain(seg), el, ACT)
                    if seg[0] != "item":
                        undecided("the rows of an activity")
                    rows.append(seg[1])
                if kind not in ("next", "continue") or found is not None and found != rows:
                    undecided("the rows of an activity")
                found = rows
        if found is None:
            undecided("the rows of an activity")
        return found

    def check(v, facts, columns):
        for a, x in facts.items():
            if a[0] == "truth" and x is False and ex.is_table(plain(a[1])) and ex.element(plain(a[1])) is not None:
                return      # there are no activities
        v = part(plain(v), ("ActivityID", "ConceptMode"))
        if v[0] == "copy":
            v = v[1]
        if v[0] != "call" or v[1] != "pandas.DataFrame":
            undecided(f"the resources are {T.show(v)[:150]}")
        named, pos = kw(v)
        data = arg(v, 0, "data")
        names = strings(named.get("columns"))
        if data is None or data[0] != "list" or set(named) - {"data", "columns"}:
            undecided(f"the resources are {T.show(v)[:150]}")
        if names is None:
            if "columns" in named:
                undecided("the columns of the resources")
            fail("without resources there are no columns")
        if columns:
            names = [n if n in columns else None for n in names]
        for c in RES:
            if c not in names:
                fail(f"there is no column {c}")
        for same, nested, *vs in product((False, True), (False, True), *[("absent", "set")] * 4):
            state = dict(zip(ROLES, vs))
            state["sub_processes"] = nested
            what = ", ".join(r for r in ROLES if state[r] == "set") or "no concepts"
            if same:
                what = "the same " + what.replace(", ", " and ")
            try:
                got = []
                for row in rows(data[1], state, same):
                    if row[0] == "dict" and all(s[0] == "kv" and s[1][0] == "str" for s in row[1]):
                        d = {s[1][1]: s[2] for s in row[1]}
                    elif row[0] in ("tuple", "list") and all(s[0] == "item" for s in row[1]) and len(row[1]) == len(names):
                        d = {n: s[1] for n, s in zip(names, row[1])}
                    else:
                        undecided(f"the row {T.show(row)[:150]}")
                    got.append({c: Row(state).ev(d[c]) if c in d else T.NONE for c in RES})
            except Raises:
                fail(f"an activity with {what} raises an error")
            want = [{"ActivityID": ("attr", ACT, "id"), "ActivityName": ("attr", ACT, "name"), "ActivityClass": ("classname", ACT),
                     "ConceptID": ("attr", ("concept", r), "id"), "ConceptName": ("attr", ("concept", r), "name"), "ConceptMode": ("str", r)}
                    for r in ROLES if state[r] == "set"]
            left = list(got)
            for w in want:
                if w in left:
                    left.remove(w)
                    continue
                mode = w["ConceptMode"][1]
                near = [g for g in left if g["ConceptMode"] == w["ConceptMode"]]
                if not near:
                    fail(f"the {mode} of an activity with {what} has no row")
                bad = [c for c in RES if near[0][c] != w[c]]
                fail(f"the {bad[0]} of the {mode} of an activity is {words(near[0][bad[0]])}")
            if left:
                fail(f"an activity with {what} has {len(got)} rows")

    return written(ck, G, check, ("param", ps[1]))


# ------------------------------------------------------------------------------------------------------------- ranges
SEEN, GROUP = ("src", "Activity"), ("group",)


def ranges(ck):
    f = function(ck, "get_ranges_dataframe")
    ps = [a.arg for a in f.node.args.args]
    G = ck.graph(None, None, fn=f, setup=setup, opaque=OPAQUE)
    ex = Exports()
    ex.activity = lambda t: None
    n = [0]
    done = set()
    typ = ("of", ("others",), "type")

    def base(facts):
        """The entries of the log that are ranges of the object"""
        for a, v in facts.items():
            if a[0] == "in" and a[1] == ("str", "type") and ex.is_table(plain(a[2])):
                return frozenset([(typ, frozenset([("str", "subprocess")]), False)]) if v else frozenset()
        return None

    def logs(t):
        for x in subterms(t):
            a = call(x, "get_log_dataframe")
            if a is not None:
                if a.get("simulation_object") != ("param", ps[0]):
                    fail("the log is not that of the object")
                if a.get("id_map") != ("param", ps[1]):
                    fail("the ids are not replaced by id_map")

    class Case:
        """One activity with so many STARTs and STOPs"""

        def __init__(self, pre, n0, n1, level):
            self.pre, self.n0, self.n1, self.level = pre, n0, n1, level
            self.unsure = None
            self.moment = False     # do the ranges take no time?

        def size(self, t):
            if not ex.is_table(t):
                return None
            g = ex(t)
            b = g.base
            if b[0] == "pair" and not g.preds:
                x, y = self.rows(b[1]), self.rows(b[2])
                return None if x is None or y is None else {"left": x, "right": y, "inner": min(x, y), "outer": max(x, y)}.get(b[3])
            return self.rows(g.rows())

        def rows(self, rows):
            b, preds, _ = rows
            plus = 0
            while b[0] == "plus":
                plus, b = plus + 1, b[1]
            if b != ("log",):
                return None
            ps = set(preds)
            own = {p for p in ps if p == (SEEN, frozenset([ELEM]), True)}
            st = {p for p in ps if p[0] == ("src", "ActivityState")}
            if ps - own - st - self.pre or not own or len(st) != 1 or self.pre - ps:
                return None
            (_, vals, yes), = st
            if vals == frozenset([("str", "START")]) and yes:
                return self.n0 + plus
            if vals == frozenset([("str", "STOP")]) and yes:
                return self.n1 + plus
            return None

        def number(self, t):
            r = 0
            for m, k in T.to_poly(t).items():
                if m == ():
                    r += k
                    continue
                y = m[0][0]
                if self.moment and y[0] == "mcall" and y[2] in ("sum", "max", "min", "mean") and not y[3]:
                    c = ex.column(y[1])
                    if c is not None and c[1][0] == "seconds":
                        continue
                if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "len":
                    return None
                x = self.size(m[0][0][1])
                if x is None:
                    return None
                r += k * x
            return r

        def holds(self, a):
            """Truth of a condition, or None"""
            if a[0] == "not":
                h = self.holds(a[1])
                return None if h is None else not h
            if a[0] in ("eq0", "lt0"):
                x = self.number(a[1])
                return None if x is None else x == 0 if a[0] == "eq0" else x < 0
            if a[0] == "eq":
                x, y = self.number(a[1]), self.number(a[2])
                return None if x is None or y is None else x == y
            if a[0] == "truth" and a[1][0] == "len":
                x = self.number(a[1])
                return None if x is None else x != 0
            if a[0] == "truth" and a[1][0] == "attr" and a[1][2] == "empty" or a[0] == "attr" and a[2] == "empty":
                x = self.size(a[1] if a[0] == "attr" else a[1][1])
                return None if x is None else x == 0
            if a[0] == "anyof":
                ks = [self.holds(("and", k)) for k in a[1]]
                return True if True in ks else None if None in ks else False
            if a[0] in ("and", "or"):
                ys = [self.holds(y) for y in (a[1] if len(a) == 2 and a[1] and isinstance(a[1][0], tuple) else a[1:])]
                if a[0] == "and":
                    return False if False in ys else None if None in ys else True
                return True if True in ys else None if None in ys else False
            if a[0] == "in" and a[1] == ("str", "container level"):
                return self.level
            return None

        def pick(self, t):
            """The value of a term with cases"""
            if t[0] != "cases":
                return [t]
            out = []
            for cond, v in t[1]:
                h = self.holds(cond)
                if h is None:
                    self.unsure = cond
                if h is not False:
                    out += self.pick(v)
            return out

        def what(self):
            return f"with {self.n0} START and {self.n1} STOP entries"

    CASES = [(n1 + d, n1, lv) for n1 in (0, 1, 2, 3) for d in (0, 1) for lv in (True, False)]

    def half(rows, pre, which, c):
        """Rows of one side of the ranges: the added row, if any"""
        b, preds, order = rows
        row = None
        if b[0] == "plus":
            b, row = b[1], dict(b[2])
        if b != ("log",):
            undecided(f"the rows of the {which} entries")
        preds = set(preds)
        if pre - preds:
            fail("the entries for the steps of an activity are taken for ranges of its own")
        preds -= pre
        if (SEEN, frozenset([ELEM]), True) not in preds:
            fail("the ranges of an activity have entries of other activities")
        preds.discard((SEEN, frozenset([ELEM]), True))
        if preds != {(("src", "ActivityState"), frozenset([("str", which)]), True)}:
            fail(f"the {'beginnings' if which == 'START' else 'ends'} of ranges are the entries with "
                 + (", ".join(f"{show(x)} {'in' if y else 'not in'} {sorted(T.show(z) for z in zs)}" for x, zs, y in preds) or "any state"))
        if order and order[0][0] != (("src", "Timestamp"),):
            fail(f"the {which} entries are not in the order of the time")
        if order and not order[0][1]:
            undecided("the order of entries with the same time")
        return row

    def rows(t, c, pre):
        """The rows of one activity"""
        fr = ex(t)
        if fr.preds:
            fail("some ranges are left out: " + ", ".join(show(x) for x, _, _ in fr.preds))
        if fr.base[0] != "pair":
            undecided("the rows of an activity")
        _, L, R, how, a, b = fr.base
        swap = False
        left, right = half(L, pre, "START", c), half(R, pre, "STOP", c)
        if left is not None:
            undecided("a row added to the STARTs")
        if a[0] != "count" or b[0] != "count":
            if a == b == ("src", "Timestamp"):
                fail("ranges are made of entries with the same time")
            undecided("how START and STOP entries are matched")
        if a[1] != b[1] or a[1] == ("descending",):
            fail("a START is not matched with the STOP of the same number")
        if a[1] != T.num(1):
            fail(f"the trips are numbered from {T.show(a[1])}")
        if right is None:
            if c.n0 != c.n1 and how not in ("left", "outer"):
                fail(f"the last range of an activity {c.what()} is missing")
        else:
            trip = right.get("trip", ("const", T.NONE))
            x = c.number(trip[1]) if trip[0] == "const" else None
            if x is None:
                undecided("the number of an unfinished range")
            if right.get("TimestampStop") not in (("const", ("ext", "pandas.NaT")), ("const", T.NONE), None):
                x = right["TimestampStop"]
                if not any(isinstance(z, tuple) and z and ex.is_table(z) for z in subterms(x[1])):
                    undecided("the end of an unfinished range")
                fail("an unfinished range has an end")
            if x != c.n1 + 1 or c.n0 == c.n1:
                if not (c.n0 == c.n1 and x > c.n0 and how in ("inner", "left")):
                    fail(f"the ranges of an activity {c.what()}: the row without end has the number {x}")
        cols = fr.cols
        want = {"TimestampStart": [("L", ("src", "Timestamp"))], "TimestampStop": [("R", ("src", "Timestamp"))],
                "trip": [("L", a), ("R", b)], "Activity": [("const", ELEM), ("L", SEEN)],
                "TimestampDt": [("seconds", ("R", ("src", "Timestamp")), ("L", ("src", "Timestamp")))]}
        if c.level:
            want["ContainerLevelStart"] = [("L", ("of", ("others",), "container level"))]
            want["ContainerLevelStop"] = [("R", ("of", ("others",), "container level"))]
        if c.n0 != c.n1:
            want["trip"] = want["trip"][:1] if right is None else want["trip"]
        for k, ws in want.items():
            if k not in cols:
                fail(f"there is no column {k}")
            if cols[k] not in ws:
                if cols[k][0] == "seconds":
                    fail(f"{k} is not the time from start to stop")
                if cols[k][0] in ("L", "R", "const"):
                    fail(f"the column {k} of a range is the {'start' if cols[k][0] == 'L' else 'stop'} entry's {show(cols[k][1])}"
                         if cols[k][0] != "const" else f"the column {k} of a range is {show(cols[k])}")
                undecided(f"the column {k}")

    def check(v, facts):
        v = plain(v)
        pre = base(facts)
        logs(v)
        if v[0] == "call" and v[1] == "pandas.DataFrame" and arg(v, 0, "data") in (None, ("list", ())):
            names = strings(arg(v, None, "columns"))
            for k in ("TimestampStart", "TimestampStop", "trip", "Activity", "TimestampDt"):
                if k not in (names or ()):
                    fail(f"without ranges there is no column {k}")
            for a, x in facts.items():
                if a[0] == "truth" and x is False or a[0] == "eq0" and x is True or a[0] == "truth" and x is True and a[1][0] == "attr" and a[1][2] == "empty":
                    return 0
            fail("there are never ranges")
        t, order, asc = v, None, T.const(True)
        while t[0] == "mcall":
            if t[2] == "sort_values":
                if order is None:
                    order, asc = strings(arg(t, 0, "by")), dict(t[3]).get("ascending", T.const(True))
                if set(kw(t)[0]) - {"by", "kind", "ignore_index", "ascending", "na_position"}:
                    undecided("the order of the ranges")
            elif t[2] == "reset_index" and dict(t[3]).get("drop") == T.const(True):
                pass
            elif t[2] in ("drop_duplicates", "dropna"):
                fail("unfinished ranges are left out" if t[2] == "dropna" else "ranges are taken for the same")
            elif t[2] != "copy":
                undecided(f"the ranges are {T.show(t)[:100]}")
            t = t[1]
        if t[0] != "call" or t[1] != "pandas.concat":
            undecided(f"the ranges are {T.show(t)[:100]}")
        lst = arg(t, 0, "objs")
        if lst[0] != "list" or len(lst[1]) != 1 or lst[1][0][0] != "each" or lst[1][0][2][0] != "item":
            undecided(f"the ranges are {T.show(lst)[:100]}")
        if order is None:
            fail("the ranges are not in the order of their time")
        if not order or order[0] != "TimestampStart" or asc != T.const(True):
            fail(f"the ranges are in the order of {order}")
        _, X, seg, conds = lst[1][0]
        once = False
        if X[0] in ("mcall", "res") and X[2] == "groupby" and len(X[3] if X[0] == "mcall" else X[4]) == 1:
            base_, by = (X[1] if X[0] == "mcall" else X[3]), strings(arg(X, 0, "by")) if X[0] == "mcall" else None
            if by is None or len(by) != 1:
                undecided(f"the activities {T.show(X)[:150]}")
            col = ("key", base_, ("str", by[0]))

            def group(t):
                t = T.replace(t, ("key", ("bv",), T.num(0)), GROUP)
                t = T.replace(t, ("key", ("bv",), T.num(1)), ("key", base_, ("eq", GROUP, col)))
                return T.replace(t, GROUP, ("bv",))
            seg, conds, X, once = (seg[0], group(seg[1])), tuple(group(x) for x in conds), col, True
        while True:
            if X[0] in ("set", "sorted") or X[0] == "call" and X[1] in ("sorted", "set", "numpy.unique"):
                once = once or X[0] == "set" or X[1] in ("set", "numpy.unique")
                X = X[1][0][1] if X[0] == "set" else X[1] if X[0] == "sorted" else X[2][0]
            elif X[0] in ("mcall", "res") and X[2] in ("unique", "drop_duplicates"):
                once, X = True, X[1] if X[0] == "mcall" else X[3]
            elif listed(X) != X:
                X = listed(X)
            else:
                break
        c = ex.column(X)
        if c is None or c[0].base != ("log",) or c[1] != SEEN:
            undecided(f"the activities {T.show(X)[:150]}")
        if not once:
            fail("an activity has its ranges once for every entry")
        if pre is None:
            if ("str", "subprocess") in set(subterms(v)):
                undecided("whether the log has steps of activities")
            fail("the entries for the steps of an activity are taken for ranges of its own")
        if c[0].preds - pre:
            fail("some activities are left out: " + ", ".join(f"{show(x)} {'in' if y else 'not in'} {sorted(T.show(z) for z in zs)}" for x, zs, y in c[0].preds - pre))
        body = T.inst(seg[1], ELEM)
        cs = [T.inst(x, ELEM) for x in conds]
        for n0, n1, lv in CASES:
            k = Case(pre, n0, n1, lv)
            known = [a for a in facts.items() if a[0][0] == "in" and a[0][1] == ("str", "container level")]
            hs = [k.holds(x) for x in cs]
            if False in hs:
                if n0:
                    fail(f"an activity {k.what()} has no ranges")
                continue
            if None in hs and n0:
                k.moment = True
                if False in [k.holds(x) for x in cs]:
                    fail("an activity whose ranges take no time has no ranges")
            if None in hs:
                undecided(f"the condition {T.show(cs[hs.index(None)])[:150]}")
            vs = k.pick(body)
            if not vs:
                if n0:
                    fail(f"an activity {k.what()} has no ranges")
                continue
            wrong = []
            for x in vs:
                n[0] += 1
                try:
                    rows(x, k, pre)
                except Violation as bad:
                    if not k.unsure:
                        raise
                    wrong.append(bad)
            if len(wrong) == len(vs):
                raise wrong[0]
            if k.unsure:
                undecided(f"the condition {T.show(k.unsure)[:150]}")

    def at_exit(s, kind, v, st):
        if kind == "raise":
            # not for a log of complete ranges
            pre = base(st.facts)
            fs = [(swap(plain(a)), x) for a, x in st.facts.items()]
            for n0, n1, lv in CASES:
                k = Case(pre or frozenset(), n0, n1, lv)
                hs = [(k.holds(a), x) for a, x in fs if sizes(a)]
                if hs and all(h == x for h, x in hs if h is not None) and any(h is not None for h, x in hs):
                    fail(f"an activity {k.what()} raises an error")
            return
        if kind != "return":
            return
        key = (plain(v), base(st.facts))
        if key in done:
            return
        check(v, st.facts)
        done.add(key)

    def sizes(a):
        return any(isinstance(x, tuple) and x and x[0] == "len" for x in subterms(a))

    def swap(t):
        """The element of a loop over the activities of the log"""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "at" and len(t) == 4:
            x = t[1]
            while x[0] == "set":
                x = x[1][0][1]
            c = ex.column(x) if x[0] in ("key", "attr") else None
            if c is not None and c[1] == SEEN:
                return ELEM
        return tuple(swap(c) for c in t)

    ck.walk(G, 0, lambda s, e: s, at_exit)
    if not n[0]:
        raise AnalysisBroken("there are no ranges")
    return n[0]


# ------------------------------------------------------------------------------------------------------------- log of activities
def activity_log(ck):
    f = function(ck, "get_activity_log")
    ps = [a.arg for a in f.node.args.args]
    G = ck.graph(None, None, fn=f, setup=setup, opaque=OPAQUE)
    ex = Exports(tree=ps[0])

    def check(v, facts, columns):
        t = ex(plain(v))
        if t.base[0] != "pair":
            undecided("the rows of the log of activities")
        _, L, R, how, a, b = t.base
        if L[0] != ("ranges",) or R[0] != ("tree",):
            undecided("the rows of the log of activities")
        if t.preds or L[1] or R[1]:
            fail("some ranges are left out")
        if a != ("src", "Activity") or b != ("src", "ActivityID"):
            fail(f"the ranges are matched by {show(a)} and {show(b)} of the activities")
        if how not in ("left", "inner"):
            fail("activities without ranges have a row")
        if columns is None:
            if not t.order:
                fail("the log is not in the order of the time")
            if t.order[0][0][:1] != (("L", ("src", "TimestampStart")),):
                fail(f"the log is in the order of {', '.join(str(x) for x in t.order[0][0])}")
        want = {c: ("L", ("src", c)) for c in ("trip", "TimestampStart", "TimestampStop", "TimestampDt")}
        want["ActivityID"] = ("L", ("src", "Activity"))
        want.update({c: ("R", ("src", c)) for c in ("ActivityName", "ActivityClass")})
        cols = t.cols
        if columns:
            miss = [c for c in columns if c not in cols]
            if miss:
                fail(f"the file has a column {miss[0]} that the table has not")
            cols = {c: cols[c] for c in columns}
        for k, w in want.items():
            if cols.get(k) != w:
                fail(f"the column {k} is {cols[k]}" if k in cols else f"there is no column {k}" + (" in the file" if columns is not None else ""))

    return written(ck, G, check, ("param", ps[1]))


def run(ck):
    for ns in ("", "Vessel"):
        ck.ob("the concepts are exported with their name, id and class", f"get_concepts, namespace {ns!r}", lambda ns=ns: concepts(ck, ns))
    ck.ob("the activities are exported with their concepts", "get_activities", lambda: activities(ck))
    ck.ob("every concept of every activity is exported once", "get_activity_resources", lambda: resources(ck))
    ck.ob("the i-th START of an activity makes a range with its i-th STOP", "get_ranges_dataframe", lambda: ranges(ck))
    ck.ob("the ranges of every activity are exported", "get_activity_log", lambda: activity_log(ck))
