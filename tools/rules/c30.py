"""Path analysis of the construction of the simulation graph (effect graph with the graph's mutators as effects, table algebra).

On every path that constructs a graph: the seven columns were found present; no row with a negative duration was found, on a table
that still had all of them; for every row of nonzero duration of the given table one edge start(id) -> end(id) weighted with end
minus start time was added, between nodes that carry these times; for every given dependency one edge end(cause) -> start(effect),
after the difference of exactly these two times was found zero; and the graph was found acyclic after the last edge.  Paths that
raise do so only on a finding of that kind.
"""

from fractions import Fraction

import terms as T
from lib import IMPRECISE, SELF, attr, fail, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["pandas and networkx operations behave as documented; ids are distinguishable as text",
               "times given as dates are compared to the second"]
COLUMNS = {"Activity", "SimulationObject", "start_time", "state", "duration", "end_time", "cp_activity_id"}
DF, DEPS = ("param", "recorded_activities_df"), ("param", "dependency_list")
MUTATORS = {"add_node", "add_edge", "add_nodes_from", "add_edges_from", "add_weighted_edges_from", "remove_node", "remove_edge",
            "remove_nodes_from", "remove_edges_from", "add_path", "add_cycle"}
KEEP = {"copy", "reset_index", "sort_values", "astype", "sort_index", "infer_objects"}
HOLE = ("hole",)
PART = ("part",)        # a selection that has nothing to do with the durations
REDUCED = {"sum", "mean", "median", "std", "var", "prod", "quantile", "mode"}
WRAP = {"round", "int", "float", "abs", "numpy.round", "numpy.abs", "numpy.around", "math.fabs"}


def setup(e):
    e.EFFECT_METHODS = frozenset(MUTATORS)


def unknown(t):
    return any(x[0] in IMPRECISE for x in subterms(t))


def name_of(t):
    return t[1] if isinstance(t, tuple) and t[0] == "str" else None


def plain(t):
    """Reductions of a column whose receiver the engine does not know, as method calls."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "res" and len(t) == 5 and t[2] in ("any", "all", "min", "max", "issubset", "issuperset", "difference"):
        t = ("mcall", t[3], t[2], t[4])
    return tuple(plain(x) for x in t)


class Table:
    """A table derived from the given one: new column names, masks applied, defined columns."""

    def __init__(self, rename=(), masks=(), subset=None, terms=(), cols=()):
        self.rename, self.masks, self.subset, self.terms, self.cols = dict(rename), tuple(masks), subset, tuple(terms), dict(cols)

    def source(self, name):
        for old, new in self.rename.items():
            if new == name:
                return old
        return name if name not in self.rename else None


def kwargs(pairs):
    return {k: v for k, v in pairs}


def is_mask(t):
    while t[0] == "not":
        t = t[1]
    return t[0] in ("eq0", "lt0", "and", "or", "isnone", "in", "eq") or t[0] == "op" and t[1] == "BitAnd" and is_mask(t[2]) and is_mask(t[3])


def table(t):
    if t == DF:
        return Table(terms=(t,))
    if t[0] == "copy":
        r = table(t[1])
        return r and extend(r, t)
    if t[0] in ("mcall",):
        r = table(t[1])
        if r is None:
            return None
        kw = kwargs(t[3])
        if t[2] == "rename":
            m = kw.get("columns")
            if m is None or m[0] != "dict" or any(s[0] != "kv" or s[1][0] != "str" or s[2][0] != "str" for s in m[1]) or r.rename:
                return None
            r.rename = {s[1][1]: s[2][1] for s in m[1]}
            return extend(r, t)
        if t[2] in KEEP:
            return extend(r, t)
        if t[2] == "drop_duplicates":
            sub = kw.get("subset", kw.get("0"))
            if sub is None:
                if kw.get("keep") in (T.FALSE, ("bool", False)):
                    r.masks += (PART,)
                return extend(r, t)
            r.subset = names(sub)
            if kw.get("keep") in (T.FALSE, ("bool", False)):
                r.masks += (PART,)
            return None if r.subset is None else extend(r, t)
        if t[2] == "assign":
            for k, v in kw.items():
                r.cols[k] = v
            return extend(r, t)
        return None
    if t[0] == "key":
        b, k = t[1], t[2]
        if b[0] == "attr" and b[2] == "loc":
            b = b[1]
            if k[0] == "tuple":
                its = [s[1] for s in k[1] if s[0] == "item"]
                if len(its) != 2 or its[1] != ("call", "slice", (T.NONE,) * 3, ()):
                    return None
                k = its[0]
        r = table(b)
        if r is None or not is_mask(k):
            return None
        r.masks += (k,)
        return extend(r, t)
    return None


def extend(r, t):
    r.terms += (t,)
    return r


def names(t):
    if t[0] == "str":
        return {t[1]}
    if t[0] in ("list", "tuple", "set") and all(s[0] == "item" and s[1][0] == "str" for s in t[1]):
        return {s[1][1] for s in t[1]}
    return None


class Where:
    """Resolves columns and conditions on them with the columns written so far."""

    def __init__(self, writes):
        self.writes = dict(writes)

    def column(self, t):
        """(source column | "duration" expression class, table) of a column reference, else None"""
        if t[0] == "attr":
            n = t[2]
        elif t[0] == "key":
            n = name_of(t[2])
        else:
            return None
        r = table(t[1])
        if r is None or n is None:
            return None
        return self.resolve(n, r), r

    def resolve(self, n, r):
        for t in reversed(r.terms):
            if (t, n) in self.writes:
                return self.kind(self.writes[(t, n)])
        if n in r.cols:
            return self.kind(r.cols[n])
        return r.source(n)

    def kind(self, v):
        """"span" if v is the difference of the end and the start time, in seconds or as time difference."""
        while True:
            if v[0] == "call" and v[1] in ("round", "numpy.round") and len(v[2]) == 2 and v[2][1][0] == "num" and v[2][1][1] >= 3:
                v = v[2][0]
            elif v[0] == "mcall" and v[2] == "round" and v[3] and v[3][0][1][0] == "num" and v[3][0][1][1] >= 3:
                v = v[1]
            elif v[0] == "mcall" and v[2] == "total_seconds" and not v[3]:
                v = v[1]
                if v[0] == "attr" and v[2] == "dt":
                    v = v[1]
            elif v[0] == "mcall" and v[2] == "astype":
                v = v[1]
            else:
                break
        c = self.column(v)
        if c is not None and c[0] is not None:
            return c[0]
        if v[0] == "poly":
            ms = dict(v[1])
            got = {}
            for m, k in ms.items():
                c = self.column(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if c is None or c[1].masks:
                    return ("other", v)
                got[c[0]] = k
            if got == {"end_time": 1, "start_time": -1}:
                return "span"
        return ("other", v)

    def span_of(self, t):
        """The table whose durations t is."""
        if t[0] == "slice" and any(x != T.NONE for x in t[2:]):
            r = self.span_of(t[1][1] if t[1][0] == "attr" and t[1][2] in ("iloc", "loc", "values") else t[1])
            if r is not None:
                r.masks += (PART,)
            return r
        if t[0] == "mcall" and t[2] in ("head", "tail", "sample", "nlargest", "drop"):
            r = self.span_of(t[1])
            if r is not None:
                r.masks += (PART,)
            return r
        c = self.column(t)
        if c is not None:
            return c[1] if c[0] == "span" else None
        if self.kind(t) == "span":
            return next((c[1] for c in map(self.column, subterms(t)) if c is not None), None)
        return None

    def about(self, atom):
        """Is the condition one on the durations of the table that is not understood?"""
        if not isinstance(atom, tuple) or not atom or "dtype" in repr(atom) or self.search(atom) is not None:
            return False
        if atom[0] in ("lt0", "exists") or atom[0] in ("mcall", "res") and atom[2] in ("any", "all", "min", "max", "sum", "query"):
            return any(self.span_of(y) for y in subterms(atom) if y[0] in ("attr", "key", "poly"))
        return atom[0] in ("truth", "not", "and", "or") and any(self.about(x) for x in atom[1:])

    def row(self, t, elem):
        """Source column of an expression of a row: row.x, row["x"], row[1].x"""
        t = T.replace(t, elem, ("row",)) if elem is not None else t
        n = t[2] if t[0] == "attr" else name_of(t[2]) if t[0] == "key" else None
        if n is None:
            return None
        b = t[1]
        if b == ("row",) or b == ("key", ("row",), T.num(1)):
            return n
        return None

    # sign analysis: which durations satisfy a condition
    def holds(self, c, col):
        """(on negative, at zero, on positive) in {all, some, none}, or None; col(t): is t the duration?"""
        neg = False
        while c[0] in ("not", "truth"):
            if c[0] == "not":
                neg = not neg
            c = c[1]
        if c[0] in ("eq0", "lt0"):
            p = c[1]
            a, b = Fraction(0), Fraction(0)
            if p[0] == "poly" and (col(p) or col(T.neg(p))):
                a = Fraction(1 if col(p) else -1)
            elif p[0] == "poly":
                for m, k in p[1]:
                    if m == ():
                        b = Fraction(k)
                    elif len(m) == 1 and m[0][1] == 1 and col(m[0][0]):
                        a += Fraction(k)
                    else:
                        return None
            elif col(p):
                a = Fraction(1)
            else:
                return None
            if a == 0:
                return None
            x = -b / a
            if c[0] == "eq0":
                r = ["some" if x < 0 else "none", "all" if x == 0 else "none", "some" if x > 0 else "none"]
            elif a > 0:         # duration < x
                r = ["all" if x >= 0 else "some", "all" if x > 0 else "none", "some" if x > 0 else "none"]
            else:               # duration > x
                r = ["some" if x < 0 else "none", "all" if x < 0 else "none", "all" if x <= 0 else "some"]
        else:
            if not col(c):
                return None
            r = ["all", "none", "all"]
        return [{"all": "none", "none": "all"}.get(v, v) for v in r] if neg else r

    def left(self, r):
        """Which of the negative, zero and positive durations are left in the table."""
        out = ["all", "all", "all"]
        for m in r.masks:
            h = self.mask(m)
            if h is None:
                return None
            out = ["none" if "none" in (o, x) else "some" if "some" in (o, x) else "all" for o, x in zip(out, h)]
        return out

    def mask(self, m):
        if m == PART:
            return ["some"] * 3
        h = self.holds(m, lambda t: self.span_of(t) is not None)
        if h is not None:
            return h
        if m[0] == "op" and m[1] == "BitAnd":
            hs = [self.mask(m[2]), self.mask(m[3])]
            return None if None in hs else ["none" if "none" in x else "some" if "some" in x else "all" for x in zip(*hs)]
        if m[0] == "and":
            hs = [self.mask(x) for x in m[1:]] if isinstance(m[1][0], str) else [self.mask(x) for x in m[1]]
            if None not in hs:
                return ["none" if "none" in x else "some" if "some" in x else "all" for x in zip(*hs)]
            return None
        while m[0] == "not":
            m = m[1]
        if m[0] == "eq" and len(m) == 3 or m[0] == "in":
            for a, b in ((m[1], m[2]), (m[2], m[1])):
                c = self.column(a)
                if c is not None and c[0] in ("activity", "Activity", "state", "source_object", "SimulationObject") and (
                        b[0] in ("str", "num") or names(b)):
                    return ["some"] * 3
        return None

    def search(self, atom):
        """A condition that is true iff some / all rows satisfy a condition: (quantifier, holds, table) or None."""
        neg = False
        atom = plain(atom)
        while atom[0] == "not":
            neg, atom = not neg, atom[1]
        q = None
        if atom[0] == "truth":
            atom = atom[1]
        if atom[0] == "exists" and len(atom) == 3:
            c, cond = atom[1], atom[2]
            h = None
            if is_mask(c):
                tb, hc = self.cond(c)
                n2 = False
                while cond[0] == "not":
                    n2, cond = not n2, cond[1]
                if tb is not None and cond in (("truth", ("bv",)), ("bv",)):
                    h = [{"all": "none", "none": "all"}.get(v, v) for v in hc] if n2 else hc
            else:
                col = self.span_of(c)
                if col is not None:
                    tb, h = col, self.holds(cond, lambda t: t == ("bv",))
                elif c[0] == "mcall" and c[2] in ("itertuples", "iterrows"):
                    tb = table(c[1])
                    if tb is not None:
                        h = self.holds(cond, lambda t: self.resolve(self.row(t, ("bv",)) or "?", tb) == "span")
            if h is not None:
                q = ("some", h, tb)
        elif atom[0] == "mcall" and atom[2] in ("any", "all") or atom[0] == "call" and atom[1] in ("numpy.any", "numpy.all", "any", "all"):
            c = atom[1] if atom[0] == "mcall" else atom[2][0]
            w = atom[2] if atom[0] == "mcall" else atom[1].rsplit(".", 1)[-1]
            if c[0] == "attr" and c[2] == "values":
                c = c[1]
            if c[0] == "mcall" and c[2] == "to_numpy":
                c = c[1]
            if is_mask(c):
                tb, h = self.cond(c)
                if tb is not None:
                    q = ("some" if w == "any" else "all", h, tb)
        elif atom[0] == "lt0":
            p = atom[1]
            for x in subterms(p):
                if x[0] == "mcall" and x[2] in REDUCED or x[0] == "res" and x[2] in REDUCED or x[0] == "call" and x[1] in REDUCED:
                    col = self.span_of(x[1] if x[0] == "mcall" else x[3] if x[0] == "res" else x[2][0])
                    if col is not None:
                        q = ("some", ["some", "none", "none"], col)
                if x[0] == "mcall" and x[2] in ("min", "max") or x[0] == "call" and x[1] in ("min", "max"):
                    col = self.span_of(x[1] if x[0] == "mcall" else x[2][0])
                    if col is not None:
                        h = self.holds(atom, lambda t: t == x)
                        # min < c: some row; not min < c: all rows
                        if h is not None and (x[2] if x[0] == "mcall" else x[1]) == "min":
                            q = ("some", h, col) if h[0] != "none" else ("all", h, col)
                if x[0] == "call" and x[1] == "len" or x[0] == "attr" and x[2] in ("size",):
                    tb = table(x[2][0] if x[0] == "call" else x[1])
                    if tb is not None and tb.masks:
                        q = ("some", ["all"] * 3, tb)
        elif atom[0] == "attr" and atom[2] == "empty":
            tb = table(atom[1])
            if tb is not None and tb.masks:
                q, neg = ("some", ["all"] * 3, tb), not neg
        elif atom[0] == "call" and atom[1] == "len" or atom[0] == "eq0" and atom[1][0] == "call" and atom[1][1] == "len":
            x = atom if atom[0] == "call" else atom[1]
            tb = table(x[2][0])
            if tb is not None and tb.masks:
                q, neg = ("some", ["all"] * 3, tb), neg != (atom[0] == "eq0")
        if q is None:
            return None
        if q[0] == "all":
            q = ("some", [{"all": "none", "none": "all"}.get(v, v) for v in q[1]], q[2])
            neg = not neg
        lf = self.left(q[2])
        if lf is None:
            return None
        h = ["none" if "none" in (a, b) else "some" if "some" in (a, b) else "all" for a, b in zip(q[1], lf)]
        return neg, h

    def cond(self, c):
        tb = [None]

        def col(t):
            r = self.span_of(t)
            if r is not None:
                tb[0] = r
            return r is not None
        h = self.holds(c, col)
        return (tb[0], h) if h is not None and tb[0] is not None else (None, None)


def column_atom(atom):
    """A condition that is true iff all of these columns are present: (set of names, negated) or None."""
    neg = False
    atom = plain(atom)
    while atom[0] in ("not", "truth") or atom[0] == "eq0" and atom[1][0] == "poly":
        neg, atom = neg != (atom[0] != "truth"), atom[1]
    cols = (attr(DF, "columns"), DF, ("list", (("splat", attr(DF, "columns")),)), ("set", (("splat", attr(DF, "columns")),)))

    def have(t):
        return t in cols or t[0] == "mcall" and t[1] in cols and t[2] in ("keys", "tolist", "to_list")
    if atom[0] == "in" and atom[1][0] == "str" and have(atom[2]):
        return {atom[1][1]}, neg
    if atom[0] == "mcall" and atom[2] in ("issubset", "issuperset"):
        a, b = (atom[1], atom[3][0][1]) if atom[2] == "issubset" else (atom[3][0][1], atom[1])
        ns = keys_of(a)
        if ns is not None and have(b):
            return ns, neg
    if atom[0] == "eq" and any(x == ("list", ()) for x in atom[1:]):
        atom = next(x for x in atom[1:] if x != ("list", ()))
        neg = not neg
    if atom[0] in ("poly",):
        ms = dict(atom[1])
        plus = [m[0][0] for m, k in ms.items() if k == 1 and len(m) == 1]
        minus = [m[0][0] for m, k in ms.items() if k == -1 and len(m) == 1]
        if len(ms) == 2 and len(plus) == len(minus) == 1 and have(minus[0]):
            ns = keys_of(plus[0])
            if ns is not None:
                return ns, not neg
    if atom[0] == "mcall" and atom[2] == "difference" and have(atom[3][0][1]):
        ns = keys_of(atom[1])
        if ns is not None:
            return ns, not neg
    return None


def keys_of(t):
    """The names in a literal collection or the keys of a literal mapping."""
    while t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "splat":
        t = t[1][0][1]
    if t[0] == "mcall" and t[2] == "keys":
        t = t[1]
    if t[0] == "dict" and all(s[0] == "kv" and s[1][0] == "str" for s in t[1]):
        return {s[1][1] for s in t[1]}
    return names(t)


def graph_term(t):
    return t[0] == "call" and t[1] in ("networkx.DiGraph", "networkx.classes.digraph.DiGraph")


def template(t, ident, what, eff):
    """The name of a node as function of the id."""
    r = T.replace(t, ident, HOLE)
    if not T.mentions(r, HOLE):
        undecided(f"the name of the {what}", eff) if unknown(t) else fail(f"the {what} is {T.show(t)[:150]}, not named by the id", eff)
    for x in subterms(r):
        if x[0] in ("key", "slice", "at") and T.mentions(x, HOLE):
            fail(f"the {what} is named by a part of the id: {T.show(t)[:150]}", eff)
        if x[0] in ("call", "mcall") and T.mentions(x, HOLE) and not (x[0] == "call" and x[1] in ("str",)):
            undecided(f"the name of the {what}: {T.show(t)[:150]}", eff)
    return T.replace(r, ("call", "str", (HOLE,), ()), HOLE)


def acyclic_evidence(t):
    return any(x[0] == "call" and x[1].rsplit(".", 1)[-1] in ("dag_longest_path_length", "dag_longest_path", "topological_sort") and
               any(graph_term(a) for a in x[2]) for x in subterms(t))


def construction(ck, label=None):
    G = ck.graph("SimulationGraph", "__init__", setup=setup)
    n = {"paths": 0, "edges": 0, "dependencies": 0}
    tpl = {}
    first = [True]      # the first walk finds the names of the nodes

    def rows_of(recv):
        """The table whose rows the loop visits."""
        while recv[0] in ("list", "tuple") and len(recv[1]) == 1 and recv[1][0][0] == "splat":
            recv = recv[1][0][1]
        if recv[0] == "mcall" and recv[2] in ("itertuples", "iterrows", "to_dict"):
            if recv[2] == "to_dict" and dict(recv[3]).get("orient", dict(recv[3]).get("0")) != ("str", "records"):
                return None
            return table(recv[1])
        return None

    def deps_of(recv):
        while True:
            if recv == DEPS:
                return ("bv",)
            if recv[0] in ("list", "tuple", "set") and len(recv[1]) == 1:
                s = recv[1][0]
                if s[0] == "splat":
                    recv = s[1]
                    continue
                if s[0] == "each" and s[1] == DEPS and s[3] == ():
                    return s[2]
                return None
            if recv[0] in ("sorted", "dict_fromkeys") or recv[0] == "copy":
                recv = recv[1]
                continue
            return None

    def some_of(recv):
        """The part of the dependencies that is visited, if it is not all of them."""
        for x in subterms(recv):
            if x[0] in ("filter", "slice") and x[1] == DEPS or x[0] == "each" and x[1] == DEPS and x[3] != ():
                return None if unknown(x) else x
            if x[0] == "dict" and len(x[1]) == 1 and x[1][0][0] == "each" and x[1][0][1] == DEPS and x[1][0][2][0] == "kv":
                k = x[1][0][2][1]
                if not (T.mentions(k, ("key", ("bv",), T.num(0))) and T.mentions(k, ("key", ("bv",), T.num(1)))) and not unknown(k):
                    return x        # one per key
        return None

    def time_of(t):
        """The node whose time is read."""
        if t[0] == "key" and t[2] == ("str", "time") and t[1][0] == "key":
            b = t[1][1]
            if b[0] == "attr" and b[2] in ("nodes", "_node", "node") and graph_term(b[1]):
                return t[1][2]
        return None

    def zero(atom, e):
        """A comparison of two node times with zero: (node whose time counts positive, negative, exact) or None."""
        exact = atom[0] == "eq0"
        if atom[0] not in ("eq0", "lt0"):
            if atom[0] == "eq" and len(atom) == 3:
                a, b = time_of(atom[1]), time_of(atom[2])
                if a and b:
                    return a, b, True
            return None
        v = atom[1]
        seconds = False
        while True:
            if v[0] == "call" and v[1] in WRAP and v[2]:
                if v[1].endswith("round") and len(v[2]) > 1 and (v[2][1][0] != "num" or v[2][1][1] < 0):
                    return None
                inner = v[2][0]
                if v[1] in ("int", "round") and len(v[2]) < 2 and not any(
                        x[0] == "mcall" and x[2] == "total_seconds" for x in subterms(inner)):
                    exact = "coarse"
                v = inner
            elif v[0] == "mcall" and v[2] == "total_seconds":
                v, seconds = v[1], True
            elif v[0] == "attr" and v[2] in ("days", "seconds", "microseconds"):
                exact = "part"
                v = v[1]
            else:
                break
        if v[0] == "poly":
            ms = dict(v[1])
            pos = [m[0][0] for m, k in ms.items() if k == 1 and len(m) == 1]
            neg = [m[0][0] for m, k in ms.items() if k == -1 and len(m) == 1]
            if len(ms) == 2 and len(pos) == len(neg) == 1:
                a, b = time_of(pos[0]), time_of(neg[0])
                if a is not None and b is not None:
                    return a, b, exact
        return None

    def attrs(e):
        return {k: v for k, v in e.args.items() if not k.isdigit() and k not in ("u_of_edge", "v_of_edge", "node_for_adding")}

    def edge_ends(e):
        a, b = e.args.get("0", e.args.get("u_of_edge")), e.args.get("1", e.args.get("v_of_edge"))
        if a is None or b is None:
            undecided("the ends of the edge", e)
        return a, b

    def row_edge(w, tb, elem, a, b, at, e, ident):
        s, t = template(a, ident, "start node", e), template(b, ident, "end node", e)
        for k, v in (("S", s), ("E", t)):
            if tpl.setdefault(k, v) != v:
                undecided("nodes named in different ways", e)
        if s == t:
            fail(f"start and end of an activity are the same node: {T.show(a)[:100]}", e)
        wt = at.get("duration")
        if wt is None:
            if "**" in at or any(not isinstance(k, str) for k in at):
                undecided("the weight of the edge", e)
            fail("the edge of an activity has no duration", e)
        c = w.row(wt, elem)
        c = w.resolve(c, tb) if c is not None else value_of(w, tb, elem, wt)
        if c != "span":
            undecided(f"the weight of the edge: {T.show(wt)[:100]}", e) if unknown(wt) or c is None else fail(
                f"the edge of an activity is weighted with {T.show(T.replace(wt, elem, ('param', 'row')))[:150]}, which is not its end minus its start", e)
        n["edges"] += 1
        if label is not None:
            label("activity", at, lambda t: (lambda c: w.resolve(c, tb) if c is not None else None)(w.row(t, elem)), e)

    def value_of(w, tb, elem, v):
        """end - start computed from the row itself"""
        while v[0] == "call" and v[1] in ("round", "float") and v[2] or v[0] == "mcall" and v[2] == "total_seconds":
            v = v[2][0] if v[0] == "call" else v[1]
        if v[0] == "poly":
            got = {}
            for m, k in v[1]:
                c = w.row(m[0][0], elem) if len(m) == 1 else None
                if c is None:
                    return ("other",)
                got[w.resolve(c, tb)] = k
            if got == {"end_time": 1, "start_time": -1}:
                return "span"
        return ("other",)

    def ident_of(tb, elem, t, w):
        """The id term of the row within the node name."""
        for x in subterms(t):
            c = w.row(x, elem)
            if c is not None and w.resolve(c, tb) == "cp_activity_id":
                return x
        return None

    def dep_edge(elem, a, b, at, e, z):
        cause, effect = ("key", elem, T.num(0)), ("key", elem, T.num(1))

        def end_of(t, want, other, what):
            for i, k in ((cause, "cause"), (effect, "effect")):
                if T.mentions(t, i):
                    return k, T.replace(T.replace(t, i, HOLE), ("call", "str", (HOLE,), ()), HOLE)
            return None, None
        ka, ta = end_of(a, cause, effect, "start")
        kb, tb_ = end_of(b, cause, effect, "end")
        if ka is None or kb is None:
            undecided("the ends of the dependency's edge", e) if unknown(a) or unknown(b) or not T.mentions(a, elem) else fail(
                f"a dependency's edge goes from {T.show(a)[:100]} to {T.show(b)[:100]}", e)
        if "S" not in tpl:
            if first[0]:
                return
            undecided("the activities' nodes are not known when the dependencies are added", e)
        if (ka, kb) != ("cause", "effect"):
            fail("the edge of a dependency does not go from its cause to its effect", e)
        if ta != tpl["E"] or tb_ != tpl["S"]:
            fail(f"a dependency's edge goes from {T.show(a)[:100]} to {T.show(b)[:100]}, not from the end of the cause to the start "
                 "of the effect", e)
        wt = at.get("duration")
        if wt is None:
            fail("the edge of a dependency has no duration (networkx counts it as 1)", e)
        if wt != T.num(0) and zero(T.eq0(wt), e) is None:
            undecided(f"the weight of a dependency's edge: {T.show(wt)[:100]}", e) if unknown(wt) else fail(
                f"the edge of a dependency is weighted with {T.show(wt)[:150]}", e)
        n["dependencies"] += 1
        if label is not None:
            label("dependency", at, None, e)

    def node_time(w, tb, elem, e, name, times):
        ident = ident_of(tb, elem, name, w)
        if ident is None:
            undecided("the name of a node", e) if unknown(name) else fail(
                f"a node is named {T.show(T.replace(name, elem, ('param', 'row')))[:150]}, not by the id of the activity", e)
        tp = T.replace(T.replace(name, ident, HOLE), ("call", "str", (HOLE,), ()), HOLE)
        t = attrs(e).get("time") if hasattr(e, "args") else None
        if t is None:
            return times
        c = w.row(t, elem)
        c = w.resolve(c, tb) if c is not None else None
        return {**dict(times), tp: c if c is not None else ("other", t)}

    # state: columns found, negatives (None unknown, True: none there), reason to raise, bad reason, writes, mode, iteration data,
    # rows done, dependencies done, acyclic, times of the nodes by template
    def step(s, e):
        cols, nonneg, why, writes, mode, it, rows, deps, acyclic, times, cl = s
        w = Where(writes)

        def new(**k):
            o = dict(cols=cols, nonneg=nonneg, why=why, writes=writes, mode=mode, it=it, rows=rows, deps=deps, acyclic=acyclic, times=times, cl=cl)
            o.update(k)
            return tuple(o.values())
        if e.kind == "assume":
            atom, val = e.recv, e.val == ("bool", True)
            c = column_atom(atom)
            if c is not None:
                if val != c[1]:
                    return new(cols=cols | c[0])
                return new(why="columns") if len(c[0]) > 1 or c[0] & COLUMNS else s
            if cl is not None and atom[0] == "in" and atom[1] == cl[1] and column_atom(("in", ("str", "x"), atom[2])) is not None:
                return new(cl=cl[:2] + (True, cl[3])) if val else new(why="columns")
            if cl is not None and cl[1] is not None and w.span_of(cl[0]) is not None:
                h = w.holds(atom, lambda t: t == cl[1])
                if h is not None:
                    h = h if val else [{"all": "none", "none": "all"}.get(v, v) for v in h]
                    if h[0] == "none":
                        return new(cl=cl[:2] + (True, cl[3]))
                    return new(why="negative" if h[1] == h[2] == "none" else "too wide")
            if atom[0] == "isinstance" or atom[0] == "not" and atom[1][0] == "isinstance":
                return new(why=why or "type")
            q = w.search(atom)
            if q is not None:
                neg, h = q
                has = val != neg
                if not has:
                    return new(nonneg=True) if h[0] == "all" else s
                if mode is None:
                    return new(why="negative" if h[1] == h[2] == "none" else "too wide")
                return s
            if mode == "deps":
                z = zero(atom, e)
                if z is not None:
                    a, b, exact = z
                    if exact is True and val:
                        return new(it=(it[0], it[1], it[2] + ((a, b),)))
                    if exact is True and not val:
                        return new(why="times")
                    if exact in ("coarse", "part"):
                        return s if val else new(why="times")
                    return new(why="times", it=it + (("sided",),) if len(it) == 3 else it)
            if mode == "rows" and it[0] is not None:
                h = w.holds(atom, lambda t: (lambda c: c is not None and w.resolve(c, table_at(it[3])) == "span")(w.row(t, it[0])))
                if h is not None:
                    h = h if val else [{"all": "none", "none": "all"}.get(v, v) for v in h]
                    if h[1] == "all" and h[2] == "none" and (h[0] == "none" or nonneg):
                        return new(it=(it[0], it[1], "zero", it[3]))
            t = repr(atom)
            if "is_directed_acyclic_graph" in t and any(graph_term(x) for x in subterms(atom)):
                return new(acyclic=True) if val == (atom[0] != "not") else new(why="cycle")
            if "dtype" in t or "numeric" in t.lower() or "isinstance" in t:
                return new(why=why or "type")
            return s
        if e.kind == "setitem":
            k = name_of(e.args.get("key"))
            r = table(e.recv)
            if r is not None and k is not None:
                return new(writes=tuple(sorted({**dict(writes), (e.recv, k): e.val}.items(), key=repr)))
            if r is not None:
                undecided("a column of the table", e)
            return s
        if e.kind == "loop" and e.recv is not None and w.span_of(e.recv) is not None and "add_" not in loop_calls(G, e):
            return new(cl=(e.recv, None, None, True))
        if e.kind == "loop" and e.recv is None:
            return s
        if e.kind == "loop" and keys_of(e.recv):
            return new(cl=(e.recv, None, None, True))
        if cl is not None and e.recv == cl[0]:
            if e.kind == "iter":
                return new(cl=(cl[0], e.args["elem"], False, cl[3]))
            if e.kind == "back":
                return new(cl=(cl[0], None, cl[2], cl[3] and cl[2]))
            if e.kind == "exhaust" and w.span_of(cl[0]) is not None:
                lf = w.left(w.span_of(cl[0]))
                return new(cl=None, nonneg=nonneg or cl[3] and lf is not None and lf[0] == "all")
            if e.kind == "exhaust":
                if cl[2] is None:
                    return None
                return new(cl=None, cols=cols | keys_of(cl[0])) if cl[3] else new(cl=None)
            return s
        if e.kind == "loop":
            if rows_of(e.recv) is not None and "add_" in loop_calls(G, e):
                tb = rows_of(e.recv)
                dur = w.resolve("duration", tb)
                if dur != "span":
                    undecided("the duration of the activities", e) if unknown(dur) else fail(
                        f"the duration of an activity is {T.show(dur[1])[:150] if isinstance(dur, tuple) else dur}, not its end minus its start", e)
                lf = w.left(tb)
                if lf is None:
                    undecided("which activities get an edge", e)
                if lf[2] != "all":
                    fail("activities with a positive duration are dropped", e)
                if lf[0] != "all" and not nonneg:
                    fail("activities with a negative duration are dropped, not rejected", e)
                if tb.subset is not None and "cp_activity_id" not in {w.resolve(x, tb) for x in tb.subset}:
                    fail(f"activities are dropped that only share {sorted(tb.subset)}", e)
                return new(mode="rows", it=(None, 0, None, None))
            if deps_of(e.recv) is not None and "add_edge" in loop_calls(G, e):
                return new(mode="deps", it=(None, 0, ()))
            if "add_edge" in loop_calls(G, e):
                part = some_of(e.recv)
                if part is not None:
                    fail(f"only part of the dependencies get an edge: {T.show(part)[:150]}", e)
                if mode is None:
                    undecided(f"a loop over {T.show(e.recv)[:150]} adds edges", e)
            return s
        if e.kind == "iter" and mode == "rows" and rows_of(e.recv) is not None:
            return new(it=(e.args["elem"], 0, None, rows_of_t(e.recv)))
        if e.kind == "iter" and mode == "deps" and deps_of(e.recv) is not None:
            return new(it=(elem_of(e.recv, e.args["elem"]), 0, ()))
        if e.kind == "back" and mode == "rows" and it[0] is not None:
            if it[1] == 0 and it[2] != "zero":
                fail("an activity gets no edge", e)
            return new(it=(None, 0, None, None))
        if e.kind == "back" and mode == "deps" and it[0] is not None:
            if it[1] == 0:
                fail("a dependency gets no edge", e)
            checked(it, e)
            return new(it=(None, 0, ()))
        if e.kind == "break" and mode in ("rows", "deps"):
            fail("not all activities and dependencies get an edge", e)
        if e.kind == "exhaust" and mode == "rows" and rows_of(e.recv) is not None:
            return new(mode=None, rows=True)
        if e.kind == "exhaust" and mode == "deps" and deps_of(e.recv) is not None:
            return new(mode=None, deps=True)
        if e.kind == "setattr" and e.recv == SELF and e.name == "simulation_graph" and e.val is not None and not graph_term(e.val):
            if not (e.val[0] in ("copy", "stale") or e.val[0] == "mcall" and e.val[2] == "copy"):
                undecided("the graph", e) if unknown(e.val) else fail(f"the graph is {T.show(e.val)[:150]}", e)
        if e.kind == "call" and e.name in MUTATORS:
            if not graph_term(e.recv):
                undecided("edges are added to another graph", e)
            if e.name == "add_node" and mode == "rows" and it[0] is not None:
                name = e.args.get("0", e.args.get("node_for_adding"))
                return new(times=tuple(sorted(node_time(w, table_at(it[3]), it[0], e, name, dict(times)).items(), key=repr)))
            if e.name == "add_node":
                return s
            if e.name == "add_edge" and mode == "rows" and it[0] is not None:
                a, b = edge_ends(e)
                tb = table_at(it[3])
                ident = ident_of(tb, it[0], a, w)
                if ident is None:
                    undecided("the name of a node", e) if unknown(a) else fail(f"the start node is {T.show(a)[:150]}, not named by the id", e)
                row_edge(w, tb, it[0], a, b, attrs(e), e, ident)
                if it[1]:
                    undecided("an activity gets several edges", e)
                return new(it=(it[0], 1, it[2], it[3]), acyclic=False)
            if e.name == "add_edge" and mode == "deps" and it[0] is not None:
                a, b = edge_ends(e)
                dep_edge(it[0], a, b, attrs(e), e, it[2])
                return new(it=(it[0], 1) + it[2:], acyclic=False)
            if e.name == "add_edges_from" and e.args.get("0", (0,))[0] in ("list", "tuple", "gen", "set"):
                return bulk(s, e, new, w)
            if e.name.startswith("remove_"):
                fail(f"nodes or edges are removed from the graph: {e.name}", e)
            undecided(f"the graph is changed by {e.name}", e)
        if isinstance(e.val, tuple) and acyclic_evidence(e.val):
            return new(acyclic=True)
        if e.kind == "raise" and e.val is not None and why is None:
            return new(why="unknown")
        return s

    def checked(it, e):
        elem = it[0]
        zs = it[2]
        if not zs:
            if "sided" in repr(it):
                fail("a dependency's edge is added although its effect may start before (or after) its cause ends", e)
            fail("a dependency's edge is added without its effect having been found to start when its cause ends", e)
        if first[0]:
            return
        for a, b in zs:
            for p, q in ((a, b), (b, a)):
                if T.replace(T.replace(p, ("key", elem, T.num(0)), HOLE), ("call", "str", (HOLE,), ()), HOLE) == tpl.get("E") and \
                        T.replace(T.replace(q, ("key", elem, T.num(1)), HOLE), ("call", "str", (HOLE,), ()), HOLE) == tpl.get("S"):
                    return
        fail(f"the times compared are those of {T.show(zs[0][0])[:100]} and {T.show(zs[0][1])[:100]}, not of the end of the cause and the "
             "start of the effect", e)

    def bulk(s, e, new, w):
        cols, nonneg, why, writes, mode, it, rows, deps, acyclic, times, cl = s
        src = e.args["0"]
        if len(src[1]) != 1 or src[1][0][0] != "each" or src[1][0][3] != ():
            undecided("the edges added at once", e)
        _, coll, item, _ = src[1][0]
        if item[0] != "tuple" or len(item[1]) not in (2, 3) or any(x[0] != "item" for x in item[1]):
            undecided("the edges added at once", e)
        a, b = item[1][0][1], item[1][1][1]
        at = {}
        if len(item[1]) == 3:
            dd = item[1][2][1]
            if dd[0] != "dict" or any(x[0] != "kv" or x[1][0] != "str" for x in dd[1]):
                undecided("the edges' attributes", e)
            at = {x[1][1]: x[2] for x in dd[1]}
        tb = rows_of(coll)
        if tb is None:
            undecided("the edges added at once", e)
        lf = w.left(tb)
        if lf is None or lf[2] != "all" or lf[0] != "all" and not nonneg:
            undecided("which activities get an edge", e)
        ident = ident_of(tb, ("bv",), a, w)
        if ident is None:
            undecided("the name of a node", e)
        row_edge(w, tb, ("bv",), a, b, at, e, ident)
        return new(rows=True, acyclic=False)

    def elem_of(recv, elem):
        """The given dependency of an iteration over (a list made of) the dependencies."""
        for x in subterms(elem):
            if x[0] == "at" and x[1] == DEPS:
                return x
        return elem

    store = {}

    def rows_of_t(recv):
        tb = rows_of(recv)
        for k, v in store.items():
            if v.terms == tb.terms:
                return k
        k = ("table", len(store))
        store[k] = tb
        return k

    def table_at(k):
        return store[k]

    def at_exit(s, kind, v, st):
        cols, nonneg, why, writes, mode, it, rows, deps, acyclic, times, cl = s
        if kind == "raise":
            if why == "too wide":
                fail("activities without negative duration are rejected")
            return
        n["paths"] += 1
        if not COLUMNS <= cols:
            if any(attr(DF, "columns") in subterms(a) and column_atom(a) is None for a in st.facts):
                undecided("which columns are required")
            fail(f"a table without the column {sorted(COLUMNS - cols)[0]} is accepted")
        if not nonneg:
            if any(Where(writes).about(a) for a in st.facts):
                undecided("whether negative durations are rejected")
            fail("activities with a negative duration are not rejected")
        if not rows:
            fail("the activities' edges are not added")
        if not deps and st.facts.get(("truth", DEPS)) is not False:
            fail("the dependencies' edges are not added")
        if not acyclic:
            fail("a graph with a cycle is accepted")
        tm = dict(times)
        for k, c, what in (("S", "start_time", "start"), ("E", "end_time", "end")):
            if k in tpl and tpl[k] in tm and tm[tpl[k]] != c:
                fail(f"the {what} node of an activity does not carry its {what} time")
    for first[0] in (True, False):
        n.update(paths=0, edges=0, dependencies=0)
        ck.walk(G, (frozenset(), False, None, (), None, (None, 0, None, None), False, False, False, (), None), step, at_exit)
    return n["paths"] and n["edges"] and n["dependencies"]


def loop_calls(G, e):
    """Names of the graph mutators called within the loop."""
    key = ("loops", id(G))
    if key not in CACHE:
        CACHE.clear()
        CACHE[key] = {}
    c = CACHE[key]
    if e not in c:
        start = [m for o in G.out for x, m in o if x is e]
        seen, stack, found = set(), list(start), set()
        depth_end = {("exhaust", e.recv), ("break", e.recv)}
        while stack:
            m = stack.pop()
            if m in seen:
                continue
            seen.add(m)
            for x, k in G.out[m]:
                if x is not None:
                    if (x.kind, x.recv) in depth_end:
                        continue
                    if x.kind == "call" and x.name in MUTATORS:
                        found.add(x.name)
                stack.append(k)
        c[e] = " ".join(sorted(found))
    return c[e]


CACHE = {}


def run(ck):
    ck.ob("simulation graph", "SimulationGraph.__init__", lambda: construction(ck))
