"""Term analysis of the critical-path search: the reported list and the two longest-path recurrences are compared as terms.

The engine summarises the search as one term: the ids of those edges of the graph for which a condition holds.  The rule shows that
the edges are all activity edges of the graph, that the condition compares the graph's longest duration with the sum of the longest
path towards the edge, the edge and the longest path from it, and that these are the solutions of the longest-path recurrences over
a topological order (respectively its reverse), the latter restricted to paths that end when the longest path ends.
"""

from fractions import Fraction

import terms as T
from rules import c30
from lib import IMPRECISE, SELF, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["networkx's topological_sort, dag_longest_path, dag_longest_path_length, predecessors and successors behave as documented",
               "the graph is as C30 describes it: acyclic, durations not negative, activities and dependencies told apart by edge_type"]
BV = ("bv",)
# library functions and methods whose results are not a matter of interpretation
READ = {"networkx", "max", "min", "round", "int", "float", "abs", "sum", "sorted", "len", "list", "tuple", "set", "floor", "ceil",
        "topological_sort", "dag_longest_path", "dag_longest_path_length", "predecessors", "successors", "nodes", "edges",
        "in_edges", "out_edges", "get_edge_data", "get", "isclose", "DiGraph", "bool"}


def clear(t):
    """Is every part of the term understood?"""
    return not any(x[0] in IMPRECISE and x[0] != "sofar" or x[0] in ("call", "mcall", "res") and str(
        x[1] if x[0] == "call" else x[2]).rsplit(".", 1)[-1] not in READ for x in subterms(t))


def numbers(*ts):
    return all(t[0] in ("num", "none") for t in ts)


def coarse(t):
    """The first duration that is cut down to whole numbers within t."""
    for x in subterms(t):
        if x[0] == "op" and x[1] in ("FloorDiv", "Mod") and clear(x):
            return x
        if x[0] == "call" and x[1] in ("int", "math.floor", "math.ceil", "numpy.floor", "numpy.ceil") and clear(x):
            return x
    return None


TOL = Fraction(1, 100)


def strip(t):
    """The collection itself, without copies that keep its elements and their order."""
    while True:
        if t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
            t = t[1][0][1]
        elif t[0] == "copy" or t[0] == "iter":
            t = t[1]
        else:
            return t


def nx_call(t, *names):
    return t[0] == "call" and t[1].startswith("networkx.") and t[1].rsplit(".", 1)[-1] in names


def args(t):
    """positional and keyword arguments of a call or method call"""
    if t[0] == "call":
        return list(t[2]), dict(t[3])
    pairs = t[4] if t[0] == "res" else t[3]
    pos = [v for k, v in sorted((p for p in pairs if p[0].isdigit()), key=lambda p: int(p[0]))]
    return pos, {k: v for k, v in pairs if not k.isdigit()}


def method(t, names):
    """(receiver, method, positional args) of a method call"""
    if t[0] == "res" and t[2] in names:
        return t[3], t[2], args(t)[0]
    if t[0] == "mcall" and t[2] in names:
        return t[1], t[2], args(t)[0]
    return None


class Search:
    def __init__(self, gr):
        self.gr = gr
        self.n = 0

    def is_edges(self, t):
        t = strip(t)
        m = method(t, ("edges",))
        return t == attr(self.gr, "edges") or m is not None and m[0] == self.gr and not m[2] and (
            not args(t)[1] or args(t)[1] == {"data": T.FALSE})

    def is_edges_data(self, t):
        """What the third part of the elements is: "data", an attribute's name, or None."""
        t = strip(t)
        m = method(t, ("edges",))
        if m is None or m[0] != self.gr:
            return None
        p, k = args(t)
        d = k.get("data", p[0] if p else None)
        return "data" if d == ("bool", True) else d[1] if d is not None and d[0] == "str" else None

    def pair(self, t, e):
        """(u, v) of an edge given as a pair or as the element e itself"""
        if t == e:
            return ("key", e, T.num(0)), ("key", e, T.num(1))
        if t[0] == "tuple" and len(t[1]) == 2 and all(s[0] == "item" for s in t[1]):
            return t[1][0][1], t[1][1][1]
        if t[0] == "slice" and t[1] == e:
            return ("key", e, T.num(0)), ("key", e, T.num(1))
        return None

    def datum(self, t, e, extra=None):
        """(u, v, attribute) of an expression reading an edge's data, else None"""
        if extra not in (None, "data") and t == ("key", e, T.num(2)):
            return ("key", e, T.num(0)), ("key", e, T.num(1)), extra
        if t[0] != "key" or t[2][0] != "str":
            m = method(t, ("get",))
            if m is None or not m[2] or m[2][0][0] != "str":
                return None
            base, name = m[0], m[2][0][1]
        else:
            base, name = t[1], t[2][1]
        if extra == "data" and base == ("key", e, T.num(2)):
            return ("key", e, T.num(0)), ("key", e, T.num(1)), name
        m = method(base, ("get_edge_data",))
        if m is not None and m[0] == self.gr and len(m[2]) == 2:
            return m[2][0], m[2][1], name
        if base[0] != "key":
            return None
        if base[1] == attr(self.gr, "edges"):
            p = self.pair(base[2], e)
            return None if p is None else p + (name,)
        if base[1][0] == "key" and base[1][1] in (self.gr, attr(self.gr, "adj"), attr(self.gr, "succ"), attr(self.gr, "_adj")):
            return base[1][2], base[2], name
        return None

    def longest(self, t):
        """A longest path of the graph by duration."""
        if not nx_call(t, "dag_longest_path"):
            return False
        p, k = args(t)
        if not p or p[0] != self.gr:
            return False
        w = k.get("weight", p[1] if len(p) > 1 else None)
        if w is None or w[0] == "str" and w[1] != "duration":
            fail(f"the longest path is not found by the durations: {T.show(t)[:150]}")
        return w == ("str", "duration")

    def order(self, t):
        """1: topological order, -1: its reverse"""
        t = strip(t)
        if nx_call(t, "topological_sort", "lexicographical_topological_sort") and t[2][:1] == (self.gr,):
            return 1
        if t[0] == "reversed" or t[0] == "call" and t[1] == "reversed":
            o = self.order(t[1] if t[0] == "reversed" else t[2][0])
            return None if o is None else -o
        if t[0] == "slice" and len(t) >= 5 and t[2] == T.NONE and t[3] == T.NONE and t[4] == T.num(-1):
            o = self.order(t[1])
            return None if o is None else -o
        if t in (self.gr, attr(self.gr, "nodes")) or method(t, ("nodes",)) and method(t, ("nodes",))[0] == self.gr:
            return 0
        return None

    # the recurrences
    def alternatives(self, v, what):
        """The terms of which v is the greatest: [("value", t) | ("over", collection, t)], and the value if there are none."""
        if v[0] == "call" and v[1] == "min" and len(v[2]) == 1 and clear(v) and any(self.neighbours(x[1]) for x in subterms(
                v[2][0]) if x[0] == "each"):
            fail(f"{what} is the shortest one: {T.show(v)[:150]}")
        if v[0] != "call" or v[1] != "max":
            return [("value", v)], None
        dflt = dict(v[3]).get("default")
        if set(dict(v[3])) - {"default"}:
            undecided(f"{what}: {T.show(v)[:150]}")
        out = []
        if len(v[2]) > 1:
            for a in v[2]:
                alts, d = self.alternatives(a, what)
                out += alts + ([("value", d)] if d is not None else [])
            return out, None
        c = v[2][0]
        while c[0] in ("list", "tuple", "set") and len(c[1]) == 1 and c[1][0][0] == "splat":
            c = c[1][0][1]
        if c[0] not in ("list", "tuple", "set"):
            undecided(f"{what}: {T.show(v)[:150]}")
        for s in c[1]:
            if s[0] == "item":
                out.append(("value", s[1]))
            elif s[0] == "each" and s[2][0] == "item":
                if s[3] != ():
                    if clear(("tuple", s[3])) and any(x[0] == "key" and x[2] in [("str", y) for y in (
                            "edge_type", "state", "activity", "duration", "time")] for a in s[3] for x in subterms(a)):
                        fail(f"{what}: not all neighbours are looked at, only where {T.show(s[3][0])[:150]}")
                    undecided(f"{what}: only some neighbours are looked at ({T.show(v)[:150]})")
                out.append(("over", s[1], s[2][1]))
            elif s[0] == "splat":
                out.append(("over", s[1], BV))
            else:
                undecided(f"{what}: {T.show(v)[:150]}")
        return out, dflt

    def neighbours(self, coll):
        """(direction, node, how the neighbour is read from the element)"""
        coll = strip(coll)
        m = method(coll, ("predecessors", "successors", "neighbors", "in_edges", "out_edges"))
        if m is not None and m[0] == self.gr and len(m[2]) == 1 and (not args(coll)[1] or m[1].endswith("edges") and set(
                args(coll)[1]) == {"data"}):
            node = m[2][0]
            if m[1] == "in_edges":
                return -1, node, ("key", BV, T.num(0))
            if m[1] == "out_edges":
                return 1, node, ("key", BV, T.num(1))
            return (-1 if m[1] == "predecessors" else 1), node, BV
        if coll[0] == "key" and coll[1] in (attr(self.gr, "pred"), attr(self.gr, "_pred")):
            return -1, coll[2], BV
        if coll[0] == "key" and coll[1] in (attr(self.gr, "succ"), attr(self.gr, "_succ"), attr(self.gr, "adj"), self.gr):
            return 1, coll[2], BV
        return None

    def step_ok(self, coll, body, table, sign, what, node):
        """The neighbour's value plus the duration of the edge between the two, over all neighbours on the right side."""
        nb = self.neighbours(coll)
        if nb is None:
            undecided(f"{what}: looks at {T.show(coll)[:120]}")
        d, at, read = nb
        if at != node:
            undecided(f"{what}: neighbours of {T.show(at)[:80]}")
        if d != sign:
            fail(f"{what} looks at the {'successors' if d > 0 else 'predecessors'} of each node")
        data = args(strip(coll))[1].get("data") if read != BV else None
        if data is not None and data != T.FALSE:
            ends = [("item", read), ("item", ("node",))]
            edge = ("key", attr(self.gr, "edges"), ("tuple", tuple(ends if sign < 0 else ends[::-1])))
            body = T.replace(body, ("key", BV, T.num(2)), edge if data == ("bool", True) else ("key", edge, data))
        other = T.replace(body, read, ("nb",)) if read != BV else body
        # in the body the element of the loop is the neighbour, the node is one binder further out
        ms = dict(other[1]) if other[0] == "poly" else {((other, 1),): Fraction(1)}
        seen = {"table": 0, "duration": 0}
        for mono, k in ms.items():
            if len(mono) != 1 or mono[0][1] != 1:
                undecided(f"{what}: {T.show(body)[:150]}") if mono and imprecise(body) else fail(
                    f"{what} adds {T.show(('poly', ((mono, k),)))[:100]} on every step")
            x = mono[0][0]
            me = ("nb",) if read != BV else BV
            if coarse(x) is not None:
                fail(f"{what} adds {T.show(coarse(x))[:150]}")
            m = x if x[0] == "dget" else None
            if m is not None and m[1][0] == "dict" and self.running(m[1], table) and m[2] == me:
                x = ("key", m[1], m[2])     # every node before has its value
            if x[0] == "key" and x[1][0] == "dict" and self.running(x[1], table) and x[2] == me:
                seen["table"] += k
                continue
            dt = self.datum(x, ("none",)) if read == BV else self.datum(T.replace(x, ("nb",), read), BV)
            if dt is None and read != BV:
                dt = self.datum(x, ("none",))
            if dt is None:
                undecided(f"{what}: {T.show(body)[:150]}")
            u, v, name = dt
            if name != "duration":
                fail(f"{what} adds the {name!r} of the edges")
            me2 = me if read == BV else read
            back, forth = (u, v) if sign < 0 else (v, u)
            if back not in (me, me2):
                if clear(u) and clear(v) and any(self.longest(x) for y in (u, v) for x in subterms(y)):
                    fail(f"{what} adds the duration of the edge {T.show(u)[:60]} - {T.show(v)[:60]}")
                undecided(f"{what}: the duration of the edge {T.show(u)[:60]} - {T.show(v)[:60]}")
            if forth != ("node",):
                undecided(f"{what}: the edge {T.show(u)[:60]} - {T.show(v)[:60]}") if forth != back else fail(
                    f"{what} takes the duration of no edge between the two nodes")
            seen["duration"] += k
        if seen != {"table": 1, "duration": 1}:
            fail(f"{what} is, per neighbour, {T.show(body)[:200]}, not the neighbour's value plus the duration of the edge between")

    def running(self, d, table):
        return len(d[1]) >= 1 and all(s[0] == "sofar" for s in d[1])

    def recurrence(self, d, sign, what):
        """d is the table of the longest durations towards (-1) / from (1) each node."""
        segs = list(d[1])
        if len(segs) != 1 or segs[0][0] != "each" or segs[0][2][0] != "kv" or segs[0][3] != ():
            undecided(f"{what}: {T.show(d)[:200]}")
        _, coll, kv, _ = segs[0]
        o = self.order(coll)
        if o is None and coll[0] == "slice" and self.order(coll[1]) is not None and numbers(*coll[2:]):
            fail(f"{what} is not computed for every node: {T.show(coll)[:100]}")
        if o is None and coll[0] == "call" and coll[1] == "sorted" and clear(coll) and self.order(coll[2][0]) == 0 and any(
                x[0] == "key" and x[2] == ("str", "time") for x in subterms(coll)):
            fail(f"{what} is computed in the order of the nodes' times, which leaves nodes of one time in any order")
        if o is None or kv[1] != BV:
            undecided(f"{what}: computed over {T.show(coll)[:100]}")
        if o != -sign:
            fail(f"{what} is not computed in {'reverse ' if sign > 0 else ''}topological order: {T.show(coll)[:100]}")
        v = kv[2]
        out = []
        for cond, x in (v[1] if v[0] == "cases" else ((None, v),)):
            alts, dflt = self.alternatives(x, what)
            over = [a for a in alts if a[0] == "over"]
            vals = [a[1] for a in alts if a[0] == "value"]
            if len(over) > 1:
                undecided(f"{what}: {T.show(x)[:150]}")
            if over:
                self.step_ok(over[0][1], T.replace(over[0][2], ("bv", 1), ("node",)), d, sign, what, BV)
            elif imprecise(x):
                undecided(f"{what}: {T.show(x)[:150]}")
            out.append((self.literals(cond, sign, what), bool(over), vals, dflt))
        self.n += 1
        return out

    def literals(self, cond, sign, what):
        """The condition as a list of cases: which of "next" (there are neighbours) and "end" hold"""
        if cond is None:
            return [{}]
        out = []
        for lits in (cond[1] if cond[0] == "anyof" else ((cond,),)):
            r = {}
            for a in lits:
                neg = False
                while a[0] in ("not", "truth"):
                    neg, a = neg != (a[0] == "not"), a[1]
                if a[0] == "eq0" and a[1][0] == "call" and a[1][1] == "len":
                    neg, a = not neg, a[1][2][0]
                c = strip(a)
                while c[0] in ("list", "tuple", "set") and len(c[1]) == 1 and c[1][0][0] == "each" and c[1][0][3] == ():
                    c = strip(c[1][0][1])
                nb = self.neighbours(c)
                if nb is not None:
                    if nb[0] != sign or nb[1] != BV:
                        undecided(f"{what}: {T.show(cond)[:150]}")
                    r["next"] = not neg
                    continue
                r["end"] = self.at_end(a, what) != neg
            out.append(r)
        return out

    @staticmethod
    def case(cases, **now):
        """The case that applies: (extended by the neighbours, values that count as well)"""
        hit = [c for c in cases if any(all(now[k] == v for k, v in lits.items()) for lits in c[0])]
        if len(hit) != 1:
            return None
        _, ext, vals, dflt = hit[0]
        return ext and now["next"], vals + ([dflt] if ext and dflt is not None and not now["next"] else [])

    def end_time(self, t):
        """(node whose time it is) of an expression reading the time of a node"""
        if t[0] == "key" and t[2] == ("str", "time") and t[1][0] == "key" and t[1][1] in (
                attr(self.gr, "nodes"), attr(self.gr, "_node")):
            return t[1][2]
        return None

    def at_end(self, cond, what):
        """True / False: the condition is that the node ends (does not end) when the longest path ends; None: none"""
        if cond is None:
            return None
        if cond[0] == "anyof" and len(cond[1]) == 1 and len(cond[1][0]) == 1:
            cond = cond[1][0][0]
        neg = False
        while cond[0] in ("not", "truth"):
            neg, cond = neg != (cond[0] == "not"), cond[1]
        a = b = None
        if cond[0] == "eq":
            a, b = cond[1], cond[2]
        elif cond[0] == "eq0" and cond[1][0] == "poly" and len(cond[1][1]) == 2:
            (m1, k1), (m2, k2) = cond[1][1]
            if len(m1) == len(m2) == 1 and k1 == -k2:
                a, b = m1[0][0], m2[0][0]
        elif cond[0] == "lt0":
            ts = [m[0][0] for m, k in (cond[1][1] if cond[1][0] == "poly" else ()) if len(m) == 1 and m[0][1] == 1]
            if len(ts) == 2 and len(cond[1][1]) == 2 and all(self.end_time(x) is not None for x in ts) and clear(cond):
                fail(f"{what}: paths count if {'not ' if neg else ''}{T.show(cond)[:200]}, not if they end when the longest path ends")
            undecided(f"{what}: {T.show(cond)[:150]}")
        if a is None:
            undecided(f"{what}: {T.show(cond)[:150]}")
        na, nb = self.end_time(a), self.end_time(b)
        if na != BV:
            a, b, na, nb = b, a, nb, na
        if na != BV:
            undecided(f"{what}: {T.show(cond)[:150]}")
        if nb is None and b[0] == "call" and b[1] in ("max", "min") and clear(b):
            fail(f"{what}: the paths must end at {T.show(b)[:150]}, not when the longest path ends")
        if nb is None or nb[0] != "key" or not self.longest(nb[1]):
            undecided(f"{what}: the end {T.show(b)[:150]}")
        if nb[2] == T.num(0):
            fail(f"{what}: the paths must end when the longest path starts")
        if nb[2] != T.num(-1):
            if nb[2][0] == "num":
                fail(f"{what}: the paths must end at {T.show(b)[:150]}, not when the longest path ends")
            undecided(f"{what}: the end {T.show(b)[:150]}")
        return not neg

    def towards(self, d):
        what = "the longest duration towards a node"
        cases = self.recurrence(d, -1, what)
        for c in cases:
            if any("end" in lits for lits in c[0]):
                undecided(f"{what}: {T.show(d)[:200]}")
        for nxt in (True, False):
            r = self.case(cases, next=nxt)
            if r is None:
                undecided(f"{what}: {T.show(d)[:200]}")
            if nxt and not r[0]:
                fail(f"{what} does not count what precedes the node")
            self.base(r[1], not nxt, [T.num(0)], what, "where nothing precedes it, ")

    def base(self, vals, needed, allowed, what, where):
        for v in vals:
            if not (v in allowed or minus_inf(v) and (("inf",) in allowed or not needed)):
                undecided(f"{what}: {T.show(v)[:100]}") if v[0] != "num" and not minus_inf(v) else fail(
                    f"{what}, {where}is {T.show(v)[:60]}")
        if needed and not vals:
            undecided(f"{what}, {where}is not defined")

    def onwards(self, d):
        what = "the longest duration from a node"
        cases = self.recurrence(d, 1, what)
        if not any("end" in lits for c in cases for lits in c[0]) and any(T.num(0) in c[2] + [c[3]] for c in cases):
            fail("paths count as of maximal duration whenever they end, not only when they end with the longest path")
        for nxt in (True, False):
            for end in (True, False):
                r = self.case(cases, next=nxt, end=end)
                if r is None:
                    undecided(f"{what}: {T.show(d)[:200]}")
                if nxt and not r[0]:
                    fail(f"{what} does not count what follows the node") if not end else undecided(f"{what} at the end")
                if end:
                    self.base(r[1], not nxt, [T.num(0)], what, "where the longest path ends, ")
                else:
                    self.base(r[1], not nxt, [("inf",)], what, "where it ends before the longest path, ")


def minus_inf(t):
    s = T.show(t).replace(" ", "")
    return s in ("(-1*math.inf)", "-1*math.inf", "(-1*numpy.inf)", "-1*numpy.inf", "float('-inf')", "(-1*float('inf'))", "-1*float('inf')")


def rounds(t):
    """(value, digits) of a rounded value"""
    if t[0] == "call" and t[1] in ("round", "numpy.round") and t[2]:
        return t[2][0], (t[2][1][1] if len(t[2]) > 1 and t[2][1][0] == "num" else 0 if len(t[2]) < 2 else None)
    return None


class Criterion:
    """The condition that the path through an edge is of maximal duration."""

    def __init__(self, search, maxattr, kept):
        self.s, self.maxattr = search, maxattr
        self.kept = kept        # what the constructor keeps in attributes
        self.empty = False      # the graph has no nodes on this path

    def parts(self, p, e, extra):
        """Splits longest - through: {"max": k, "to": (k, d, node), "from": .., "duration": .., 1: constant}"""
        out = {"const": Fraction(0)}
        ms = p[1] if p[0] == "poly" else ((((p, 1),), Fraction(1)),)
        for mono, k in ms:
            if mono == ():
                out["const"] = Fraction(k)
                continue
            if len(mono) != 1 or mono[0][1] != 1:
                return None
            x = mono[0][0]
            if x[0] == "attr" and x[1] == SELF or nx_call(x, "dag_longest_path_length"):
                out.setdefault("max", []).append((k, x))
                continue
            if x[0] == "key" and x[1][0] == "dict":
                if x[2] == ("key", e, T.num(0)):
                    out.setdefault("to", []).append((k, x[1]))
                    continue
                if x[2] == ("key", e, T.num(1)):
                    out.setdefault("from", []).append((k, x[1]))
                    continue
                return None
            d = self.s.datum(x, e, extra)
            if d is not None and d[:2] == (("key", e, T.num(0)), ("key", e, T.num(1))):
                out.setdefault(d[2], []).append((k, x))
                continue
            return None
        return out

    def check(self, atom, e, extra):
        """True if atom is the criterion; fails if it is a wrong one; None if it is no such condition"""
        neg = False
        while atom[0] in ("not", "truth"):
            neg, atom = neg != (atom[0] == "not"), atom[1]
        if not any(x[0] == "dict" for x in subterms(atom)) and not any(x == self.maxattr for x in subterms(atom)):
            return None
        slack = None
        if coarse(atom) is not None:
            fail(f"the criterion compares {T.show(coarse(atom))[:150]}")
        if atom[0] == "call" and atom[1] == "math.isclose" and len(atom[2]) == 2:
            tol = dict(atom[3]).get("abs_tol")
            slack = Fraction(1, 10 ** 6) if tol is None else tol[1] if tol[0] == "num" else undecided("the tolerance")
            p = T.sub(atom[2][0], atom[2][1])
        elif atom[0] == "eq" and rounds(atom[1]) and rounds(atom[2]):
            (a, i), (b, j) = rounds(atom[1]), rounds(atom[2])
            if i is None or i != j:
                undecided(f"the comparison with the longest duration: {T.show(atom)[:150]}")
            slack, p = Fraction(1, 10 ** int(i)) if i >= 0 else Fraction(10 ** -int(i)), T.sub(a, b)
        elif atom[0] == "eq0" and atom[1][0] == "poly":
            ms = dict(atom[1][1])
            rs = [(m[0][0], k) for m, k in ms.items() if len(m) == 1 and rounds(m[0][0])]
            if len(rs) == len(ms) == 2 and rs[0][1] == -rs[1][1]:
                (a, i), (b, j) = rounds(rs[0][0]), rounds(rs[1][0])
                if i is None or i != j:
                    undecided(f"the comparison with the longest duration: {T.show(atom)[:150]}")
                slack, p = Fraction(1, 10 ** int(i)) if i >= 0 else Fraction(10 ** -int(i)), T.sub(a, b)
            elif len(rs) == 0:
                slack, p = Fraction(0), atom[1]
        elif atom[0] == "lt0":
            p = atom[1]
            # abs(x) < eps
            ab = [m[0][0] for m, k in (p[1] if p[0] == "poly" else ()) if len(m) == 1 and m[0][0][0] == "call" and m[0][0][1] in ("abs", "math.fabs")]
            if len(ab) == 1:
                rest = T.sub(p, ab[0])
                if rest[0] == "num":
                    p = T.add(ab[0][2][0], rest)
        else:
            undecided(f"the comparison with the longest duration: {T.show(atom)[:150]}")
        if slack is None and atom[0] != "lt0":
            undecided(f"the comparison with the longest duration: {T.show(atom)[:150]}")
        q = self.parts(p, e, extra)
        if q is None:
            ends = [x for x in ((m[0][0] for m, _ in p[1] if len(m) == 1) if p[0] == "poly" else ()) if x[0] == "key" and x[1][0] == "dict" and x[2] in (("key", e, T.num(0)), ("key", e, T.num(1)))]
            if clear(p) and len(ends) == 2 and len({x[2] for x in ends}) == 1:
                fail(f"the criterion takes both durations at one end of the edge: {T.show(p)[:200]}")
            undecided(f"the comparison with the longest duration: {T.show(atom)[:200]}")
        k = q["max"][0][0] if len(q.get("max", ())) == 1 else 0
        if k == 0:
            fail(f"the criterion does not compare with the longest duration of the graph: {T.show(atom)[:150]}")
        if k not in (1, -1):
            undecided(f"the comparison with the longest duration: {T.show(atom)[:200]}")
        for name, say in (("to", "what precedes the activity"), ("duration", "the activity itself"), ("from", "what follows the activity")):
            cs = [c for c, _ in q.get(name, ())]
            if cs != [-k]:
                fail(f"the criterion does not count the duration of {say} (once)")
        if set(q) - {"max", "to", "from", "duration", "const"}:
            fail(f"the criterion compares with {T.show(p)[:200]}")
        self.longest(q["max"][0][1])
        for d, solve in ((q["to"][0][1], self.s.towards), (q["from"][0][1], self.s.onwards)):
            if d != ("dict", ()) or not self.empty:
                solve(d)
        c = q["const"]
        if atom[0] == "lt0" and (slack is None):
            if (k == 1) == neg:
                # k=1: max - through + c < 0 must be asserted; k=-1: denied
                fail("activities are reported if the path through them is not of maximal duration")
            slack = -c if k == 1 else c
            if slack <= 0:
                if slack == 0 and neg:
                    undecided("durations are compared for exact equality")
                fail("a path must be longer than the longest one for its activities to be reported")
        elif neg:
            fail("activities are reported if the path through them is not of maximal duration")
        if slack == 0:
            undecided("durations are compared for exact equality")
        if slack > TOL:
            fail(f"paths that are up to {float(slack)} shorter than the longest one count as critical")
        return True

    def longest(self, t):
        if t != self.maxattr:
            if nx_call(t, "dag_longest_path_length"):
                length(t, self.s.gr)
                return
            v = self.kept.get(t)
            if v is not None and clear(v) and not any(nx_call(x, "dag_longest_path_length", "dag_longest_path") for x in subterms(v)):
                fail(f"the longest duration is {T.show(v)[:150]}")
            undecided(f"the longest duration is {T.show(t)[:100]}")


def length(t, gr):
    if not nx_call(t, "dag_longest_path_length") or t[2][:1] != (gr,):
        undecided(f"the longest duration is {T.show(t)[:120]}") if imprecise(t) or not nx_call(t, "dag_longest_path_length") else fail(
            f"the longest duration is {T.show(t)[:120]}")
    p, k = args(t)
    w = k.get("weight", p[1] if len(p) > 1 else None)
    if w is None:
        fail("the longest duration counts every edge as 1 (the weight is not given)")
    if w != ("str", "duration"):
        fail(f"the longest duration is measured by {T.show(w)}, not by the durations")


def of_activity(atom, s, e, extra):
    """True: the condition says that the edge is an activity; False: that it is not; None: something else"""
    neg = False
    while atom[0] in ("not", "truth"):
        neg, atom = neg != (atom[0] == "not"), atom[1]
    if atom[0] == "eq":
        for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
            d = s.datum(a, e, extra)
            if d is not None and d[2] == "edge_type" and b[0] == "str":
                if b[1] == "activity":
                    return not neg
                if b[1] == "dependency":
                    return neg
    if atom[0] == "isnone":
        d = s.datum(atom[1], e, extra)
        if d is not None and d[2] in ("activity", "cp_activity_id", "state"):
            return neg
    return None


def run(ck):
    names, kept = {}, {}

    def longest():
        G = ck.graph("SimulationGraph", "__init__")
        out = set()
        gname, mname = set(), {}

        def step(s, e):
            if e.kind == "setattr" and e.recv == SELF:
                kept[attr(SELF, e.name)] = e.val
                if e.val[0] == "call" and e.val[1] in ("networkx.DiGraph", "networkx.classes.digraph.DiGraph"):
                    gname.add(e.name)
                if nx_call(e.val, "dag_longest_path_length"):
                    mname.setdefault(e.name, []).append((e.val, e))
                elif any(nx_call(x, "dag_longest_path_length") for x in subterms(e.val)):
                    r = rounds(e.val)
                    if r is not None and r[1] is not None and r[1] >= 2 and nx_call(r[0], "dag_longest_path_length"):
                        mname.setdefault(e.name, []).append((r[0], e))
                    elif e.val[0] in ("poly",) or r is not None and r[1] is not None or e.val[0] == "call" and e.val[1] in (
                            "int", "math.floor", "math.ceil", "numpy.floor", "numpy.ceil"):
                        fail(f"the longest duration is kept as {T.show(e.val)[:150]}", e)
                    else:
                        undecided(f"the longest duration is kept as {T.show(e.val)[:150]}", e)
                if e.val == T.NONE:
                    return s | {e.name}
                return s - {e.name}
            if e.kind == "call" and e.name in ("add_edge", "add_edges_from", "add_weighted_edges_from", "add_node") and mname:
                return s | {("late", e.name)}
            return s

        def at_exit(s, kind, v, st):
            if kind == "return":
                out.add(s)
        ck.walk(G, frozenset(), step, at_exit)
        if len(gname) != 1 or not out:
            undecided("the graph's attribute")
        names["graph"] = attr(SELF, gname.pop())
        names["none"] = frozenset.intersection(*out)
        names["max"] = None
        if len(mname) == 1:
            name, vals = next(iter(mname.items()))
            names["max"] = attr(SELF, name)
            for v, e in vals:
                g = v[2][0] if v[2] else None
                ok = g == names["graph"] or g is not None and g[0] == "call" and g[1].endswith("DiGraph")
                if not ok:
                    undecided(f"the longest duration is of {T.show(v)[:100]}", e)
                length(("call", v[1], (names["graph"],) + v[2][1:], v[3]), names["graph"])
            if any(("late", x) in s for s in out for x in ("add_edge", "add_node", "add_edges_from", "add_weighted_edges_from")):
                undecided("the graph is extended after its longest duration is taken")
        elif not mname:
            undecided("no longest duration is kept")
        else:
            undecided("several longest durations are kept")

    def reported():
        if not names.get("graph"):
            undecided("the graph's attribute is not known")
        gr = names["graph"]
        s = Search(gr)
        crit = Criterion(s, names["max"], kept)
        G = ck.graph("SimulationGraph", "get_list_critical_activities")
        cached = {}
        values = []
        altered = []

        def step(st, e):
            if e.kind == "setattr" and e.recv == SELF:
                cached.setdefault(e.name, []).append((e.val, e))
                if attr(SELF, e.name) in (gr, names["max"]):
                    fail(f"the search replaces {T.show(attr(SELF, e.name))}", e)
            if e.kind == "setitem" and e.args.get("key") == ("str", "duration"):
                b = e.recv
                if any(x == attr(gr, "edges") or x == gr for x in subterms(b)) and not any(x[0] in ("copy", "mcall") for x in subterms(b)):
                    fail("the search changes the durations of the graph", e)
                altered.append(e)
            if e.kind == "setitem" and e.args.get("key") == ("str", "time"):
                fail("the search changes the times of the graph", e)
            if e.kind == "call" and e.recv == gr and e.name in ("remove_edge", "remove_node", "add_edge", "remove_edges_from",
                                                              "remove_nodes_from"):
                fail(f"the search changes the graph ({e.name})", e)
            return st

        def at_exit(st, kind, v, x):
            if kind == "return":
                values.append((v, x))
        ck.walk(G, (), step, at_exit)
        if not values:
            undecided("no result")
        found = [0]

        def edges_list(t, where):
            """t is the list of exactly the critical edges"""
            if t[0] == "attr" and t[1] == SELF:
                cache(t[2], edges_list, where)
                return
            listed(t, lambda y, e: s.pair(y, e) == (("key", e, T.num(0)), ("key", e, T.num(1))), "edges")

        def ids_list(t, where):
            if t[0] == "attr" and t[1] == SELF:
                cache(t[2], ids_list, where)
                return
            t = strip(t)
            if t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "each":
                _, coll, seg, conds = t[1][0]
                c = strip(coll)
                cache_of = c[0] == "attr" and c[1] == SELF
                if cache_of and conds:
                    bad = [a for a in conds if not of_activity(a, s, BV, None)]
                    if bad:
                        undecided(f"reported only if {T.show(bad[0])[:150]}") if not clear(bad[0]) else fail(
                            f"critical activities are reported only if {T.show(bad[0])[:150]}")
                    conds = ()
                elif conds:
                    listed(t, ident, "ids")
                    return
                if c[0] == "slice" and numbers(*c[2:]) and c[2:] != (T.NONE, T.NONE, T.num(-1)):
                    fail(f"only a part of the critical edges is reported: {T.show(c)[:150]}")
                if not s.is_edges(c) and s.is_edges_data(c) is None and (c[0] in ("attr", "list", "tuple", "set")):
                    d = s.datum(seg[1], BV) if seg[0] == "item" else None
                    if d is None or d[:2] != (("key", BV, T.num(0)), ("key", BV, T.num(1))):
                        undecided(f"the ids: {T.show(t)[:150]}")
                    if d[2] != "cp_activity_id":
                        fail(f"the edges' {d[2]!r} is reported instead of the ids of the activities")
                    edges_list(c, where)
                    return
            listed(t, ident, "ids")

        def ident(y, e, extra=None):
            d = s.datum(y, e, extra)
            if d is not None and d[:2] == (("key", e, T.num(0)), ("key", e, T.num(1))):
                if d[2] != "cp_activity_id":
                    fail(f"the edges' {d[2]!r} is reported instead of the ids of the activities")
                return True
            return False

        def listed(t, item_ok, what):
            t = strip(t)
            single = any(nx_call(x, "dag_longest_path") for x in subterms(t)) and any(x[0] == "pairs" for x in subterms(t))
            if altered and (single or any(x[0] == "res" for x in subterms(t))):
                fail("activities are judged by single longest paths of a graph with altered durations: an activity is dropped for one "
                     "path through it although another one may be of maximal duration", altered[0])
            if t[0] not in ("list", "tuple", "set") or len(t[1]) != 1 or t[1][0][0] != "each":
                if t[0] == "slice" and numbers(*t[2:]):
                    fail(f"only a part of the critical {what} is reported: {T.show(t)[:150]}")
                if t[0] in ("list", "tuple", "set") and t[1] and all(y[0] == "item" for y in t[1]) and clear(t):
                    fail(f"at most {len(t[1])} of the critical {what} is reported: {T.show(t)[:150]}")
                if single and not imprecise(t) and not any(x[0] in ("op", "many") for x in subterms(t)):
                    fail(f"only activities on one longest path are reported: {T.show(t)[:150]}")
                undecided(f"the critical {what}: {T.show(t)[:200]}")
            _, coll, seg, conds = t[1][0]
            extra = s.is_edges_data(coll)
            if not s.is_edges(coll) and extra is None:
                if coll[0] == "pairs" and s.longest(coll[1]):
                    fail("only the activities on one longest path are reported")
                undecided(f"the critical {what} are taken from {T.show(coll)[:150]}")
            if seg[0] != "item" or not (item_ok(seg[1], BV) or extra is not None and what == "ids" and ident(seg[1], BV, extra)
                                        or extra is not None and s.pair(seg[1], ("none",)) == (("key", BV, T.num(0)), ("key", BV, T.num(1)))):
                undecided(f"the critical {what}: {T.show(seg)[:150]}")
            is_act = is_crit = False
            for a in conds:
                if a[0] == "anyof" and len(a[1]) == 1:
                    conds2 = a[1][0]
                else:
                    conds2 = (a,)
                for b in conds2:
                    o = of_activity(b, s, BV, extra)
                    if o is False:
                        fail("the edges of dependencies are reported, not those of activities")
                    if o:
                        is_act = True
                        continue
                    if crit.check(b, BV, extra):
                        is_crit = True
                        continue
                    if not clear(b):
                        undecided(f"reported only if {T.show(b)[:150]}")
                    fail(f"activities on a path of maximal duration are reported only if {T.show(b)[:150]}")
            if not is_crit:
                fail("activities are reported without looking at the duration of the paths through them")
            if not is_act:
                fail("dependencies are reported as well")
            found[0] += 1

        def cache(name, check, where):
            if name not in names["none"]:
                if kept.get(attr(SELF, name), ("none",))[:2] in (("list", ()), ("tuple", ())) and len(init_writers(ck, name)) == 1:
                    fail(f"self.{name} is empty from the start, which is taken for the result of the search")
                undecided(f"self.{name} is not empty at first")
            if name not in cached:
                undecided(f"self.{name} is not set here")
            # (values of an empty graph are judged on the paths that return them directly)
            full = [(v, e) for v, e in cached[name] if not any(x in (("dict", ()), ("list", ())) for x in subterms(v))]
            for v, e in full or cached[name]:
                if v != attr(SELF, name):
                    check(v, e)
            writers = [f for f in ck.prog.find_class("SimulationGraph").methods.values() if writes(f, name)]
            if len(writers) > 2:
                undecided(f"self.{name} is set in several places")
        for v, x in values:
            # without activities there is nothing to report
            crit.empty = any(a[0] == "truth" and not b and (s.order(a[1]) is not None or s.is_edges(a[1])) for a, b in x.facts.items())
            if crit.empty and strip(v)[:2] == ("list", ()):
                continue
            if strip(v)[:2] == ("list", ()):
                # nothing is reported as the list of critical edges is empty
                lists = [("list", (("each", a[1][1], ("item", BV), a[1][2]),)) if a[1][0] == "filter" else a[1]
                         for a, b in x.facts.items() if a[0] == "truth" and not b and a[1][0] in ("filter", "list")]
                if lists:
                    edges_list(lists[0], x)
                    continue
                if x.facts and all(clear(a) for a in x.facts) and not any(
                        a[0] in ("truth", "eq0", "eq", "isnone") and any(y == gr or y[0] == "attr" and y[1] == SELF and y[2] in names["none"]
                                                              or y[0] in ("dict", "each", "filter") for y in subterms(a)) for a in x.facts):
                    fail("nothing is reported where " + ", ".join(f"{T.show(a)[:100]} is {b}" for a, b in x.facts.items())[:300])
            ids_list(v, x)
        if not found[0]:
            undecided("no list of critical activities is computed")
        return {"paths": len(values), "recurrences": s.n, "lists": found[0]}

    ck.ob("the graph of the recorded activities and dependencies", "SimulationGraph.__init__", lambda: c30.construction(ck, label))
    ck.ob("longest duration", "SimulationGraph", longest)
    ck.ob("reported activities", "SimulationGraph", reported)



def init_writers(ck, name):
    return [f for f in ck.prog.find_class("SimulationGraph").methods.values() if writes(f, name) and f.node.name == "__init__"]


def label(kind, at, column, e):
    """The marks the search goes by."""
    t = at.get("edge_type")
    if t is None:
        undecided("how the edges are marked", e)
    if t[0] != "str":
        undecided(f"the mark of the edges: {T.show(t)[:100]}", e)
    if (t[1] == "activity") != (kind == "activity"):
        fail(f"the edges of {'activities' if kind == 'activity' else 'dependencies'} are marked as {t[1]!r}", e)
    if kind == "activity":
        t = at.get("cp_activity_id")
        c = column(t) if t is not None else None
        if c != "cp_activity_id":
            undecided("the id of the edges", e) if t is None or c is None and not clear(t) else fail(
                f"the edge of an activity has {T.show(t)[-80:]} for its id", e)


def writes(f, name):
    import ast

    return any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))
