"""Term analysis of the extraction of dependencies from the log, decided on all kinds of rows of the recorded activities.

The loop over the recorded activities is summarised as terms: by cases, which pairs an iteration adds.  The terms (selections of rows by
masks, tests for rows, sets of executions) depend on a row only through a few relations to the row at hand: recorded by an activity,
end before / at / after its start, same object, waiting, same execution.  They are evaluated for every row at hand, every
other row and every further row of each kind, and compared with the specification.
"""

import itertools

import terms as T
from lib import IMPRECISE, SELF, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["the table of recorded activities is that of C38",
               "whether the waiting of the very execution at hand (of no duration) counts as waiting is left open"]
CLS = "DependenciesFromRecordedActivities"
OPAQUE = ("get_recorded_activity_df", "_make_recorded_activities_df")
ALL = ("call", "slice", (T.NONE, T.NONE, T.NONE), ())
X = ("row at hand",)
SAME = {"copy", "reset_index", "sort_values", "sort_index", "infer_objects"}
COLS = {"ActivityID", "Activity", "SimulationObject", "start_time", "end_time", "duration", "state", "cp_activity_id"}
# A: recorded by an activity; E: -1 / 0 / 1 ended before / at / after the start of the row at hand; S: same object; W: waiting;
# I: same execution
KINDS = [dict(zip("AESWI", c)) for c in itertools.product((False, True), (-1, 0, 1), (False, True), (False, True), (False, True))]


def say(r):
    return ("a row of " + ("an activity" if r["A"] else "a simulation object") + " that ended " + {-1: "before", 0: "at", 1: "after"}[r["E"]]
            + " its start, of " + ("the same" if r["S"] else "another") + " object, " + ("waiting, " if r["W"] else "active, ")
            + ("of the same execution" if r["I"] else "of another execution"))


class Free(Exception):
    pass


class Empty(Exception):
    """The first row of an empty selection"""


def kwargs(t):
    return dict(t[3] if t[0] in ("mcall", "call") else t[4])


def first(t, *names):
    kw = kwargs(t)
    for n in ("", "0", *names):
        if n in kw:
            return kw[n]
    return None


MEMO = {}
RECORDED = attr(SELF, "recorded_activities_df")


def memo(f):
    """Remembered per term object (the terms live as long as the analysis)"""
    def g(t, *a):
        k = (f.__name__, id(t), a)
        if k not in MEMO:
            MEMO[k] = (t, f(t, *a))
        return MEMO[k][1]
    return g


def recorded(t):
    return t == RECORDED or t[0] == "res" and t[2] == "get_recorded_activity_df" and t[3] == SELF


@memo
def table(t):
    return any(recorded(x) for x in subterms(t))


def norm(t):
    """Results of methods of a table as method call terms"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "res" and len(t) == 5 and not recorded(t) and isinstance(t[3], tuple) and table(t[3]):
        return ("mcall", norm(t[3]), t[2], tuple(("" if k in ("0", "") else k, norm(v)) for k, v in t[4]))
    return tuple(norm(c) for c in t)


def open_row(t):
    """The bound row of the outer loop as a constant"""
    def leaf(x, depth):
        if x == T.bv(depth):
            return X
        return None
    return T._rebind(t, leaf, 0)


@memo
def of(t, base):
    """Column name of a read of the row base"""
    for b in (base, ("key", base, T.num(1))):
        if t[0] == "attr" and t[1] == b and t[2] in COLS:
            return t[2]
        if t[0] == "key" and t[1] == b and t[2][0] == "str":
            return t[2][1]
    return None


@memo
def cell(t):
    """Column of the row that a mask speaks about"""
    if t[0] == "attr" and t[2] in COLS and table(t[1]):
        return t[2]
    if t[0] == "key" and t[2][0] == "str" and t[2][1] in COLS and table(t[1]):
        return t[2][1]
    if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "loc" and t[2][0] == "tuple" and t[2][1][-1][1][0] == "str" and table(t[1]):
        return t[2][1][-1][1][1]
    return None


def plain(t):
    """A term of operations on the table and the row at hand alone"""
    return not any(x[0] in IMPRECISE or x[0] in ("closure", "param", "global", "phi", "vol") and x != SELF or x[0] in ("call", "mcall") and str(
        x[1] if x[0] == "call" else x[2]).rsplit(".", 1)[-1] not in PLAIN or x[0] == "res" and not recorded(x) for x in subterms(t))


def columns(t):
    """The columns read by the term, (column, of the row at hand?)"""
    if not isinstance(t, tuple):
        return set()
    if t and t[0] in ("attr", "key"):
        c = of(t, X)
        if c is not None:
            return {(c, True)}
        if t == ("attr", X, "Index"):
            return {("index", True)}
        if t[0] == "attr" and t[2] == "index" and table(t[1]):
            return {("index", False)}
        c = cell(t)
        if c is not None:
            return {(c, False)}
    return set().union(set(), *(columns(x) for x in t))


PLAIN = {"slice", "isin", "eq", "ne", "lt", "gt", "le", "ge", "total_seconds", "Timedelta", "round", "floor", "ceil", "min", "max", "mean",
         "isna", "notna", "copy", "reset_index", "sort_values", "lower", "upper", "len", "sorted", "list", "set", "tuple", "unique", "tolist",
         "abs", "head", "tail", "nlargest", "nsmallest", "first", "last", "sample", "drop_duplicates", "dropna"}


class World:
    """The recorded rows: the row at hand, and one or two others, with truth values for other comparisons"""

    def __init__(self, x, others, free):
        self.x, self.rows, self.free = x, others + [x], free

    def table(self, t):
        if recorded(t):
            return self.rows
        if t[0] == "copy" or t[0] == "mcall" and t[2] in SAME | {"itertuples", "iterrows"}:
            return self.table(t[1])
        if t[0] == "iter":
            return self.table(t[1])
        if t[0] == "slice" or t[0] == "mcall" and t[2] in ("head", "tail", "nlargest", "nsmallest", "sample", "dropna", "drop_duplicates"):
            return self.some(t, self.table)
        if t[0] == "mcall" and t[2] == "query":
            undecided("rows selected by a query")
        if t[0] == "call" and t[1] in ("list", "tuple") and t[2]:
            return self.table(t[2][0])
        if t[0] == "key":
            m, base = t[2], t[1]
            if base[0] == "attr" and base[2] == "loc":
                base = base[1]
                if m[0] == "tuple" and len(m[1]) == 2:
                    c = m[1][1][1]
                    if c != ALL and not (c[0] in ("list", "tuple") and all(s[0] == "item" and s[1][0] == "str" for s in c[1])):
                        undecided(f"the columns {T.show(c)[:100]}")
                    m = m[1][0][1]
            if m[0] in ("list",) and all(s[0] == "item" and s[1][0] == "str" for s in m[1]):
                return self.table(base)
            return [r for r in self.table(base) if self.mask(m, r)]
        undecided(f"the rows {T.show(t)[:200]}")

    def some(self, t, read):
        """Those of the rows that are left by an operation that drops rows: any of them may be dropped"""
        if t[0] == "slice":
            base = t[1][1] if t[1][0] == "attr" and t[1][2] in ("iloc", "loc", "values") else t[1]
            rows = read(base)
            if t[2:] in ((T.NONE, T.NONE, T.NONE), (T.NONE, T.NONE)) or t[2:4] == (T.NONE, T.NONE) and t[4:] in ((T.num(1),), (T.num(-1),)):
                return rows
            if any(x[0] not in ("num", "none") for x in t[2:]):
                undecided(f"the rows {T.show(t)[-150:]}")
            one = t[2] == T.NONE and t[3][0] == "num" and t[3][1] > 0 or t[3] == T.NONE and t[2][0] == "num" and t[2][1] < 0
        else:
            rows = read(t[1])
            one = t[2] != "dropna"
            if t[2] == "drop_duplicates":
                sub = first(t, "subset")
                names = {x[1] for x in subterms(sub) if x[0] == "str"} if sub is not None else COLS
                if not names or "cp_activity_id" in names:
                    if "SimulationObject" in names:
                        return rows
                    undecided("removal of duplicates")
                same = [r for r in rows if r["S"]] if "SimulationObject" in names else rows
                if names != {"SimulationObject"}:
                    undecided("removal of duplicates")
                left = [r for r in same if self.other(("left", t), r)] if len(same) > 1 else same
                if not left and same:
                    left = same[:1]
                return [r for r in rows if not any(r is q for q in same) or any(r is q for q in left)]
            elif t[2] not in ("dropna", "head", "tail"):
                undecided(f"the rows {T.show(t)[-150:]}")
        left = [r for r in rows if self.other(("left", t), r)] if len(rows) > (1 if one else 0) else rows
        return left or rows[:1] if one else left

    def free_mask(self, m, r):
        """The truth of a comparison that may hold and may not hold, whatever the relations of the row to the row at hand"""
        if not plain(m) or m[0] not in ("lt0", "eq", "eq0", "in") and not (m[0] == "mcall" and m[2] in ("eq", "ne", "isin")):
            return None
        cols = columns(m)
        names = {c for c, _ in cols}
        if not any(not x for _, x in cols):
            return None
        if names <= {"ActivityID", "Activity"} and m[0] != "lt0":
            if r["I"] and any(x for _, x in cols):      # the same execution is of the same activity
                return m[0] != "mcall" or m[2] != "ne"
            return self.other(("mask", m), r)
        if m[0] == "lt0" and m[1][0] == "poly" and (names == {"duration"} or names == {"index"}):
            ps = [(k[0][0], c) for k, c in m[1][1] if k]
            ks = [c for x, c in ps if any(not a for _, a in columns(x)) and not any(y[0] == "mcall" and y[2] in (
                "min", "max", "mean") for y in subterms(x))]
            rest = [x for x, c in ps if not (any(not a for _, a in columns(x)) and not any(y[0] == "mcall" and y[2] in (
                "min", "max", "mean") for y in subterms(x)))]
            if len(ks) == 1 and len(rest) <= 1 and (ks[0] < 0 or rest and columns(rest[0])):
                if any(x for _, x in cols) and (r is self.x or r["I"] and names == {"duration"}) and len(m[1][1]) == 2:
                    return False
                return self.other(("mask", m), r)
        if m[0] == "eq" and cols == {("end_time", False), ("start_time", True)} and any(
                y[0] == "mcall" and y[2] in ("round", "floor", "ceil") for y in subterms(m)):
            return True if r["E"] == 0 else self.other(("mask", m), r)      # close enough times count as equal
        if m[0] == "lt0" and m[1][0] == "poly" and cols == {("start_time", False), ("start_time", True)} and len(m[1][1]) == 2:
            less = next((k[0][0] for k, c in m[1][1] if k and c == 1), None)
            if less is not None and not r["I"] and r["E"] == (0 if cell(less) == "start_time" else 1) or r["E"] == 1 and not r["I"]:
                return self.other(("mask", m), r)       # an execution may take no time
            if less is not None:
                return cell(less) == "start_time" and r["E"] < 0 and not r["I"]
        return None

    def number(self, t):
        if t[0] == "len":
            return len(self.rows_or_ids(t[1]))
        if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "shape" and t[2] == T.num(0):
            return len(self.table(t[1][1]))
        if t[0] == "mcall" and t[2] == "sum" and not t[3]:
            rows = self.masked(t[1])
            if rows is not None:
                return sum(1 for r in rows if self.mask(t[1], r))
        return None

    def column(self, t):
        """(rows, name)"""
        if t[0] == "slice" and self.column(t[1]) is not None:
            name = self.column(t[1])[1]
            return self.some(t, lambda b: self.column(b)[0]), name
        while True:
            if t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "splat":
                t = t[1][0][1]
            elif t[0] == "call" and t[1] in ("set", "list", "tuple") and t[2]:
                t = t[2][0]
            elif t[0] == "mcall" and t[2] in ("tolist", "to_list", "unique", "to_numpy", "copy", "drop_duplicates"):
                t = t[1]
            elif t[0] == "attr" and t[2] == "values":
                t = t[1]
            else:
                break
        if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "loc" and t[2][0] == "tuple" and len(t[2][1]) == 2 and t[2][1][1][1][0] == "str":
            m = t[2][1][0][1]
            return self.table(("key", t[1], m) if m != ALL else t[1][1]), t[2][1][1][1][1]
        if t[0] == "attr" and t[2] in COLS and table(t[1]):
            return self.table(t[1]), t[2]
        if t[0] == "key" and t[2][0] == "str" and t[2][1] in COLS and table(t[1]):
            return self.table(t[1]), t[2][1]
        return None

    def cell(self, t):
        return cell(t)

    def compare(self, a, b, r):
        """Is the value a of row r that b of the row at hand, or a constant?"""
        if b[0] == "str":
            if a == "SimulationObject" and b[1] == "Activity":
                return r["A"]
            if a == "state" and b[1] in ("WAITING", "ACTIVE"):
                return r["W"] == (b[1] == "WAITING")
            return None
        c = of(b, X)
        if c is None:
            return None
        if (a, c) == ("end_time", "start_time"):
            return r["E"] == 0
        if (a, c) == ("SimulationObject", "SimulationObject"):
            return r["S"]
        if (a, c) == ("cp_activity_id", "cp_activity_id"):
            return r["I"]
        if (a, c) in (("start_time", "end_time"), ("start_time", "start_time"), ("end_time", "end_time"), ("ActivityID", "ActivityID"),
                      ("Activity", "Activity")):
            return self.other((a, c), r)
        return None

    def other(self, what, r):
        k = (what, id(r))
        if k not in self.free:
            raise Free(k)
        return self.free[k]

    def mask(self, m, r):
        if m == ALL:
            return True
        if m[0] == "bool":
            return m[1]
        if m[0] == "not" or m[0] == "op" and m[1] == "Invert":
            return not self.mask(m[1] if m[0] == "not" else m[2], r)
        if m[0] == "op" and m[1] in ("BitAnd", "BitOr"):
            return (all if m[1] == "BitAnd" else any)([self.mask(y, r) for y in m[2:4]])
        if m[0] in ("and", "or"):
            ys = m[1] if len(m) == 2 and m[1] and isinstance(m[1][0], tuple) else m[1:]
            return (all if m[0] == "and" else any)([self.mask(y, r) for y in ys])
        if m[0] == "call" and m[1] in ("numpy.logical_and", "numpy.logical_or"):
            return (all if m[1].endswith("and") else any)([self.mask(y, r) for y in m[2]])
        if m[0] == "eq" or m[0] == "mcall" and m[2] in ("eq", "ne"):
            pairs = ((m[1], m[2]), (m[2], m[1])) if m[0] == "eq" else ((m[1], first(m, "other") or T.NONE),)
            for a, b in pairs:
                a = self.cell(a)
                if a is not None:
                    v = self.compare(a, b, r)
                    if v is not None:
                        return v if m[0] == "eq" else v == (m[2] == "eq")
        if m[0] == "mcall" and m[2] == "isin":
            a, b = self.cell(m[1]), first(m, "values")
            if a is not None and b is not None and b[0] in ("list", "tuple", "set") and all(s[0] == "item" for s in b[1]):
                vs = [self.compare(a, s[1], r) for s in b[1]]
                if None not in vs:
                    return any(vs)
        if m[0] == "lt0" and m[1][0] == "poly" and len(m[1][1]) == 2:
            ts = {k[0][0]: c for k, c in m[1][1] if len(k) == 1}
            if len(ts) == 2 and sorted(ts.values()) == [-1, 1]:
                less = next(k for k, c in ts.items() if c == 1)
                more = next(k for k, c in ts.items() if c == -1)
                if self.cell(less) == "end_time" and of(more, X) == "start_time":
                    return r["E"] < 0
                if self.cell(more) == "end_time" and of(less, X) == "start_time":
                    return r["E"] > 0
        v = self.free_mask(m, r)
        if v is not None:
            return v
        undecided(f"rows selected by {T.show(m)[:200]}")

    def truth(self, c):
        if c[0] == "anyof":
            return any([self.every(y) for y in c[1]])
        if c[0] == "not":
            return not self.truth(c[1])
        if c[0] in ("and", "or"):
            ys = c[1] if len(c) == 2 and c[1] and isinstance(c[1][0], tuple) else c[1:]
            return (all if c[0] == "and" else any)([self.truth(y) for y in ys])
        if c[0] == "bool":
            return c[1]
        if c[0] in ("lt0", "eq0"):
            p = c[1] if c[1][0] == "poly" else ("poly", ((((c[1], 1),), 1),))
            ns = [(k[0][0], v) for k, v in p[1] if k]
            if len(ns) == 1 and self.number(ns[0][0]) is not None:
                n = self.number(ns[0][0]) * ns[0][1] + dict(p[1]).get((), 0)
                return n < 0 if c[0] == "lt0" else n == 0
        if c[0] == "truth":
            if self.number(c[1]) is not None:
                return bool(self.number(c[1]))
            if c[1][0] == "key" and table(c[1]) and self.cell(c[1]) is None:
                return bool(self.table(c[1]))
            if c[1][0] == "attr" and c[1][2] == "index" and table(c[1]):
                return bool(self.table(c[1][1]))
            if c[1][0] in ("mcall", "attr", "not", "in", "eq", "call"):
                return self.truth(c[1])
        if c[0] == "attr" and c[2] == "empty":
            return not self.rows_or_ids(c[1])
        if c[0] == "eq" and any(self.number(y) is not None for y in c[1:3]) and any(y[0] == "num" for y in c[1:3]):
            return next(self.number(y) for y in c[1:3] if self.number(y) is not None) == next(y[1] for y in c[1:3] if y[0] == "num")
        if c[0] == "mcall" and c[2] in ("any", "all") or c[0] == "call" and c[1] in ("any", "all", "numpy.any", "numpy.all") and c[2]:
            m = c[1] if c[0] == "mcall" else c[2][0]
            f = any if c[2 if c[0] == "mcall" else 1].endswith("any") else all
            rows = self.masked(m)
            if rows is not None:
                return f([self.mask(m, r) for r in rows])
        if c[0] == "in":
            col = self.column(c[2])
            if col is not None:
                if c[1][0] == "str" and col[1] in ("Activity", "ActivityID"):
                    return any([self.other(("is", c[1]), r) for r in col[0]])
                if c[1][0] == "str" and col[1] == "state":
                    if c[1][1] not in ("WAITING", "ACTIVE"):
                        fail(f"the state is compared with {c[1][1]!r}")
                    return any([r["W"] == (c[1][1] == "WAITING") for r in col[0]])
                v = [self.compare(col[1], c[1], r) for r in col[0]]
                if None not in v:
                    return any(v)
        if c[0] == "exists" and len(c) == 3 and c[2][0] == "eq" and ("bv",) in c[2][1:3]:
            col, b = self.column(c[1]), next(y for y in c[2][1:3] if y != ("bv",))
            if col is not None:
                vs = [self.compare(col[1], b, r) for r in col[0]]
                if None not in vs:
                    return any(vs)
        if plain(c) and columns(c) == {("duration", True)}:
            p = c[1] if c[0] in ("lt0", "eq0") else None
            x = p[1][0][0][0][0] if p is not None and p[0] == "poly" and len(p[1]) == 1 and p[1][0][0] else p
            if x is not None and x[0] == "mcall" and x[2] == "total_seconds":
                x = x[1]
            if x is not None and of(x, X) == "duration":
                zero = self.x["E"] == 0
                return zero if c[0] == "eq0" else not zero and p[0] == "poly" and p[1][0][1] < 0
            if c[0] == "lt0" and p[0] == "poly" and len(p[1]) == 2:
                return self.other(("cond", c), self.x)
        if c[0] == "exists" and len(c) == 3:
            undecided(f"the condition {T.show(c)[:200]}")
        if c[0] == "eq" and of(c[1], X) and c[2][0] == "str" or c[0] == "eq" and c[1][0] == "str" and of(c[2], X):
            col, s = (of(c[1], X), c[2][1]) if c[2][0] == "str" else (of(c[2], X), c[1][1])
            if col == "state" and s in ("WAITING", "ACTIVE"):
                return self.x["W"] == (s == "WAITING")
            if col == "SimulationObject" and s == "Activity":
                return self.x["A"]
        if c[0] == "eq":
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                one = self.one(a)
                if one is not None:
                    v = self.compare(one[1], b, one[0])
                    if v is not None:
                        return v
        undecided(f"the condition {T.show(c)[:200]}")

    def every(self, lits):
        """The literals in any order: what is not reached because another one does not hold is not read"""
        vs = []
        for a in lits:
            try:
                vs.append(self.truth(a))
            except Empty:
                vs.append(None)
        if False not in vs and None in vs:
            undecided("the first row of an empty selection")
        return False not in vs

    def one(self, t):
        """(row, column) of a read of the first or last row of a selection; the rows of the worlds are in every order"""
        def pick(k, rows):
            if k[0] != "num" or k[1] not in (0, -1):
                undecided(f"row {T.show(k)} of a selection")
            if not rows:
                raise Empty
            return rows[int(k[1])]
        c = t[2] if t[0] == "attr" else t[2][1] if t[0] == "key" and t[2][0] == "str" else None
        if c in COLS and t[1][0] == "key" and t[1][1][0] == "attr" and t[1][1][2] == "iloc" and table(t[1][1][1]):
            return pick(t[1][2], self.table(t[1][1][1])), c
        if t[0] == "key" and t[2][0] == "num":
            b = t[1][1] if t[1][0] == "attr" and t[1][2] in ("iloc", "values") else t[1]
            col = self.column(b)
            if col is not None:
                return pick(t[2], col[0]), col[1]
        return None

    def masked(self, m):
        """The rows that a mask speaks about"""
        for y in subterms(m):
            if self.cell(y) is not None:
                base = y[1][1] if y[0] == "key" and y[1][0] == "attr" and y[1][2] == "loc" else y[1]
                return self.table(base)
        return None

    def rows_or_ids(self, t):
        col = self.column(t)
        if col is not None:
            return col[0]
        if t[0] in ("poly", "op"):
            return self.ids(t)
        return self.table(t)

    def ids(self, t):
        """The rows whose executions are in the set (the execution at hand is that of the rows with I)"""
        if t[0] == "poly":
            plus = [k[0][0] for k, c in t[1] if len(k) == 1 and c == 1]
            minus = [k[0][0] for k, c in t[1] if len(k) == 1 and c == -1]
            if len(plus) != 1 or len(plus) + len(minus) != len(t[1]):
                undecided(f"the executions {T.show(t)[:150]}")
            rows = self.ids(plus[0])
            for m in minus:
                rows = self.without(rows, m)
            return rows
        if t[0] == "mcall" and t[2] in ("difference",):
            rows = self.ids(t[1])
            for _, m in t[3]:
                rows = self.without(rows, m)
            return rows
        if t[0] == "filter":
            return [r for r in self.ids(t[1]) if all(self.about_id(c, r) for c in t[2])]
        if t[0] == "sorted":
            return self.ids(t[1])
        if t[0] == "without" and of(t[2], X) is not None:
            return self.without(self.ids(t[1]), ("set", (("item", t[2]),)))
        if t[0] == "slice":
            return self.some(t, self.ids)
        if t[0] == "op" and t[1] == "BitOr":
            a, b = self.ids(t[2]), self.ids(t[3])
            return a + [r for r in b if not any(r is q for q in a)]
        col = self.column(t)
        if col is not None and col[1] == "cp_activity_id":
            return col[0]
        if col is not None:
            fail(f"the {col[1]} of the rows is reported, not their cp_activity_id")
        undecided(f"the executions {T.show(t)[:200]}")

    def without(self, rows, m):
        if m[0] in ("set", "list", "tuple") and all(s[0] == "item" for s in m[1]):
            names = [of(s[1], X) for s in m[1]]
            if names == ["cp_activity_id"]:
                return [r for r in rows if not r["I"]]
            if names == []:
                return rows
            if None not in names and "cp_activity_id" not in names:
                return rows
        undecided(f"without the executions {T.show(m)[:100]}")

    def about_id(self, c, r):
        if c[0] == "not":
            return not self.about_id(c[1], r)
        if c[0] == "eq":
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a == ("bv",) and of(b, X) == "cp_activity_id":
                    return r["I"]
        undecided(f"the condition {T.show(c)[:150]}")

    def pairs(self, seg):
        """The rows r for which (execution of r, execution at hand) is added"""
        if seg[0] == "splat" and seg[1][0] == "each":
            seg = seg[1]
        if seg[0] == "splat" and seg[1][0] in ("list", "set", "tuple", "gen"):
            out = []
            for s in seg[1][1]:
                out += self.pairs(s)
            return out
        if seg[0] != "each" or seg[2][0] != "item" or seg[2][1][0] not in ("tuple", "list") or len(seg[2][1][1]) != 2:
            undecided(f"the dependencies added: {T.show(seg)[:200]}")
        _, coll, (_, pair), conds = seg
        a, b = pair[1][0][1], pair[1][1][1]

        def cause(t):
            return t == ("bv",) or of(t, ("bv",)) == "cp_activity_id"

        def effect(t):
            return of(t, X) == "cp_activity_id"
        if cause(b) and effect(a):
            fail("the activity that starts is reported as the cause of the one that ended")
        if not cause(a) or not effect(b):
            if imprecise(a) or imprecise(b):
                undecided(f"the dependency ({T.show(a)[:100]}, {T.show(b)[:100]})")
            fail(f"the dependency is ({T.show(a)[:100]}, {T.show(b)[:100]})")
        rows = self.ids(coll) if a == ("bv",) else self.table(coll)
        for c in conds:
            if a == ("bv",):
                rows = [r for r in rows if self.about_id(c, r)]
            else:
                rows = [r for r in rows if self.row_cond(c, r)]
        return rows

    def row_cond(self, c, r):
        if c[0] == "not":
            return not self.row_cond(c[1], r)
        if c[0] == "anyof":
            return any([all([self.row_cond(a, r) for a in y]) for y in c[1]])
        if c[0] == "eq":
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                col = of(a, ("bv",))
                if col:
                    v = self.compare(col, b, r)
                    if v is not None:
                        return v
        if not any(y == ("bv",) for y in subterms(c)):
            return self.truth(c)
        undecided(f"the condition {T.show(c)[:200]}")


def outcomes(f):
    """Values of f(free) for all truth values of the comparisons it depends on"""
    out, todo = set(), [{}]
    while todo:
        free = todo.pop()
        try:
            out.add(f(free))
        except Free as x:
            if len(free) > 6:
                undecided("too many comparisons")
            todo += [{**free, x.args[0]: True}, {**free, x.args[0]: False}]
    return out


def run(ck):
    def decide():
        G = ck.graph(CLS, "get_dependency_list", opaque=OPAQUE)
        sets, results, n = {}, [], [0]

        def step(s, e):
            if e.kind in ("setattr", "setitem") and e.recv is not None and recorded(e.recv):
                fail("the recorded activities are changed", e)
            if e.kind == "setattr" and e.recv == SELF:
                sets.setdefault(e.name, []).append((e.val, e))
            return s

        def at_exit(s, kind, v, st):
            if kind == "return":
                results.append((v, {a: b for a, b in st.facts.items()}))
        ck.walk(G, (), step, at_exit)
        values = []
        for v, facts in results:
            if v[0] == "attr" and v[1] == SELF:
                if facts.get(("isnone", v)) is not False and v[2] not in sets:
                    fail(f"self.{v[2]} is returned without having been made")
                values += [w for w, _ in sets.get(v[2], ()) if w not in (v, T.NONE)]
            else:
                values.append(v)
        for v in {norm(v): 0 for v in values}:
            judge(G, v, n)
        if not n[0]:
            undecided("no dependencies")
        return {"worlds": n[0]}

    def peeled(v):
        """Are dependencies left out of the list when it is complete?"""
        if v[0] == "slice" and v[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE)):
            fail(f"only some of the dependencies are reported, by their place in the list ({T.show(v)[-60:]})")
        f = None
        if v[0] in ("list", "set", "tuple") and len(v[1]) == 1:
            f = v[1][0][1:] if v[1][0][0] == "each" else v[1][0][1][1:] if v[1][0][0] == "splat" and v[1][0][1][0] == "filter" else None
        if f is not None and any(y[0] == "junk" for y in subterms(f[0])):
            cs = f[-1]
            for c in cs:
                b = c[1] if c[0] == "not" else c
                ends = {y for y in subterms(b) if y[0] == "key" and y[1] == ("bv",) and y[2][0] == "num"}
                if b[0] == "lt0" and len(ends) == 2:
                    fail("a dependency is left out depending on the order of the two identifiers")
                if b[0] == "in" and b[1][0] == "slice" and b[1][1] == ("bv",):
                    fail("a dependency is left out when its reverse is found (executions of no duration)")
        if v[0] in ("mcall", "list") and any(y[0] == "dict" and y[1] and y[1][0][0] == "each" and any(
                z[0] == "junk" for z in subterms(y[1][0][1])) for y in subterms(v)):
            fail("only one dependency of every execution is reported")

    def judge(G, v, n):
        peeled(v)
        while v[0] == "sorted" or v[0] in ("list", "tuple", "set") and len(v[1]) == 1 and v[1][0][0] == "splat" or v[0] == "call" and v[1] in (
                "set", "list", "sorted") and v[2]:
            v = v[1] if v[0] == "sorted" else v[2][0] if v[0] == "call" else v[1][0][1]
            peeled(v)
        if v[0] not in ("list", "set", "tuple") or len(v[1]) != 1:
            undecided(f"the dependencies {T.show(v)[:200]}")
        s = v[1][0]
        if s[0] == "junk":
            hits = [seg for (L, _), (kind, segs) in G.grown.items() if L == s[1] for seg in segs if kind in ("list", "set")]
            hits = [h for h in hits if h[0] == "each"]
            if len(hits) != 1:
                undecided(f"the dependencies {T.show(v)[:200]}")
            s = norm(hits[0])
        if s[0] != "each":
            undecided(f"the dependencies {T.show(v)[:200]}")
        _, coll, body, conds = s
        if body[0] == "either":
            alts = open_row(body[1])
        else:
            alts = open_row(((("anyof", (conds,)), (body,) if body[0] != "many" else body[1]),))
        outer = coll
        dd = [y for y in subterms(outer) if y[0] == "mcall" and y[2] == "drop_duplicates"]
        for y in dd:
            names = {z[1] for z in subterms(first(y, "subset") or T.NONE) if z[0] == "str"}
            if "cp_activity_id" in names and "SimulationObject" not in names:
                fail("of an execution recorded by several objects only the dependencies of one are found")

        def world(x, others, free):
            w = World(x, others, free)
            if not any(r is x for r in w.table(outer)):
                return frozenset()
            hit = [segs for c, segs in alts if w.truth(c)]
            if len(hit) > 1:
                undecided("several cases apply")
            got = [r for segs in hit for g in segs for r in w.pairs(g)]
            return frozenset(next(i for i, q in enumerate(w.rows) if q is r) for r in got)

        def wanted(x, rows, own):
            if x["A"]:
                return frozenset()
            wait = any(w["W"] and w["E"] == 0 and w["S"] and not w["A"] and (own or not w["I"]) for w in rows)
            return frozenset(i for i, r in enumerate(rows) if not r["A"] and r["E"] == 0 and not r["I"] and (r["S"] or wait))

        for xa, xe, xw in itertools.product((False, True), (0, 1), (False, True)):
            x = {"A": xa, "E": xe, "S": True, "W": xw, "I": True}
            for r in KINDS:
                if r["S"] and r["A"] != xa:
                    continue
                ks = [k for k in KINDS if not k["S"] or k["A"] == xa]
                near = [k for k in ks if k["S"] and k["E"] == 0 and not k["I"]]
                for more in [()] + [(k,) for k in ks] + [(j, k) for j in near for k in near + [r]]:
                    others = [dict(k) for k in more] + [dict(r)]
                    rows = others + [x]
                    want = {wanted(x, rows, True), wanted(x, rows, False)}
                    got = outcomes(lambda free: world(x, others, free))
                    n[0] += 1
                    if got <= want:
                        continue
                    for g in got:
                        if g in want:
                            continue
                        w = sorted(want, key=sorted)[0]
                        i = sorted(g ^ w)[0]
                        others_say = "; with ".join(say(q) for j, q in enumerate(rows[:-1]) if j != i)
                        fail(f"{'no' if i in w else 'a'} dependency of a row of {'an activity' if xa else 'a simulation object'} on "
                             f"{say(rows[i])}" + (f" (with {others_say})" if others_say else ""))
    ck.ob("dependencies from the log", CLS, decide)
