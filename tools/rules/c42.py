"""Dataflow over data frames: which entry of the log, which column and which label ends up where in log tables and charts.

The code that makes the log table and the charts is summarised as terms; the terms are evaluated in an abstract domain of data frames
(source and selection of the rows, their order and labels, the origin of every column), the loops that draw bars as transition systems
over the kinds of rows.  Tables and charts are compared with the specification for every form of the arguments.
"""

import terms as T
from lib import AnalysisBroken, fail, imprecise, subterms, undecided

from .tables import CHANGE, Frame, Tables, arg, kw, strings

LEVEL = "other"
ASSUMPTIONS = ["pandas: concat along the columns joins rows by their labels, in the order of the first frame",
               "activities have an id and a name, labels have neither"]
COLUMNS = ("Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel")
STATES = ("START", "STOP", "WAIT_START", "WAIT_STOP", "UNKNOWN")


def setup(e):
    e.frames = True
    e.want_steps = True
    e.lift = True
    e.EFFECTS = frozenset(["matplotlib.pyplot.plot", "matplotlib.pyplot.step", "plot", "step"])


def function(ck, name):
    fs = [f for f in ck.prog.all_functions() if f.name == name and f.cls is None]
    if len(fs) != 1:
        raise AnalysisBroken(f"{name} not found")
    return fs[0]


def plain(t):
    """Without the moments at which attributes were read, and the sites of calls"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "prop" and len(t) == 4:
        return ("prop", plain(t[1]), t[2])
    if t and t[0] == "vol" and len(t) == 4:
        return ("attr", plain(t[2]), t[3])
    if t and t[0] == "res" and len(t) == 5:
        return ("res", "", t[2], plain(t[3]), plain(t[4]))
    return tuple(plain(c) for c in t)


# ------------------------------------------------------------------------------------------------------------- the log as lists
def log_property(ck):
    """Log.log: every entry, in the order of the logbook, its known columns as they are"""
    G = ck.graph("Log", "log", setup=setup)
    book = ("attr", ("param", "self"), "logbook")
    n = [0]

    def leaf(t):
        if t[0] == "call" and t[1] == "pandas.DataFrame" and len(t[2]) == 1 and whole(t[2][0], book):
            return Frame(("book",), {c: ("src", c) for c in COLUMNS}, rest=("other columns",))
        if t[0] == "call" and t[1] == "pandas.DataFrame" and len(t[2]) == 1:
            f, x = Frame(("book",), {c: ("src", c) for c in COLUMNS}, rest=("other columns",)), plain(t[2][0])
            if x[0] == "slice" and whole(x[1], book):
                return LogTables(leaf).part(f, x)
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each" and whole(x[1][0][1], book) and x[1][0][2] == ("item", ("bv",)) \
                    and len(x[1][0][3]) == 1 and of_entry(x[1][0][3][0]):
                return f.but(preds={(("entries with", T.show(x[1][0][3][0])[:100]), frozenset(), True)})
        if t[0] == "call" and t[1] == "pandas.DataFrame" and len(t[2]) == 1 and t[2][0][0] == "dict":
            d = t[2][0][1]
            if all(s[0] == "kv" and s[1][0] == "str" and s[2] in (("list", ()), ("tuple", ())) for s in d):
                return Frame(("empty",), {s[1][1]: ("none",) for s in d})
        return None

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        empty = any(f in st.facts and st.facts[f] is want for f, want in EMPTY)
        v = plain(v)
        if v[0] == "dict":
            if empty and all(x[0] == "kv" and x[2] in (("list", ()),) for x in v[1]) and {x[1] for x in v[1]} == {("str", c) for c in COLUMNS}:
                return
        if v[0] != "mcall" or v[2] != "to_dict" or arg(v, 0, "orient") != ("str", "list"):
            undecided(f"the log is {T.show(v)[:150]}")
        f = LogTables(leaf)(v[1])
        if f.base == ("empty",):
            if not empty:
                fail("the log of an object with entries is reported as empty")
            if set(f.cols) != set(COLUMNS):
                fail(f"the empty log has the columns {sorted(f.cols)}")
            return
        if f.preds or f.order and not harmless(f.order):
            fail("the log does not have every entry in the order of the logbook")
        for c in COLUMNS:
            x = f.cols.get(c)
            if x is None:
                fail(f"the log has no column {c}")
            if x != ("src", c) and x != ("converted", ("src", c)):
                fail(f"the column {c} of the log is {show(x)}")
        if f.rest:
            undecided("columns that are not those of the log are kept")

    t = ("attr", ("param", "self"), "logbook")
    EMPTY = []
    for s in G.exits:
        for a, val in s[3].facts.items():
            if val is False and a[0] == "truth" and plain(a[1]) == t:
                EMPTY.append((a, False))
            if val is True and a[0] == "eq0" and plain(a[1]) == ("len", t):
                EMPTY.append((a, True))
    ck.walk(G, 0, lambda s, e: s, lambda s, k, v, st: at_exit(s, k, v, st))
    if not n[0]:
        raise AnalysisBroken("Log.log has no result")
    return n[0]


def harmless(order):
    return False


def whole(t, book):
    t = plain(t)
    while t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
        t = t[1][0][1]
    return t == book or t[0] == "attr" and t[2] == "logbook" and t[1] == ("param", "self") or t[0] == "param" and t[1] == ("attr", ("param", "self"), "logbook")


def of_entry(c):
    """A condition on a value of an entry that holds for some entries only"""
    while c[0] == "not":
        c = c[1]

    def value(x):
        return x[0] in ("key", "dget") and x[1] == ("bv",) and x[2][0] == "str" and x[2][1] in COLUMNS or \
            x[0] == "mcall" and x[1] == ("bv",) and x[2] == "get"
    return c[0] in ("isnone", "truth") and value(c[1]) or c[0] in ("eq", "in") and value(c[1]) and not imprecise(c[2]) \
        or c[0] == "eq" and value(c[2]) and not imprecise(c[1])


CHANGES = ("replace", "floor", "ceil", "round", "date", "timestamp", "isoformat", "strftime", "normalize")


class LogTables(Tables):
    """The frame operations of Log.log"""

    def m_drop_duplicates(self, t):
        fail("entries of the log are taken for the same and dropped")

    def m_drop(self, t):
        f = self(t[1])
        c = arg(t, None, "columns")
        if c is not None and len(t[3]) == 1:
            known = self.all_but(c)
            if known is not None:
                return f.but(cols={n: v for n, v in f.cols.items() if n in known}, rest=())
        return super().m_drop(t)

    def all_but(self, c):
        """The names of which all other columns are meant"""
        c = listed(c)
        if c[0] == "poly" and len(c[1]) == 2:
            d = {k[0][0]: n for k, n in c[1] if len(k) == 1}
            plus, minus = [k for k, n in d.items() if n == 1], [k for k, n in d.items() if n == -1]
            if len(plus) == len(minus) == 1 and self.columns(plus[0]):
                return strings(minus[0])
        if c[0] == "mcall" and c[2] == "difference" and self.columns(c[1]) and len(c[3]) == 1:
            return strings(c[3][0][1])
        if c[0] in ("list", "set") and len(c[1]) == 1 and c[1][0][0] == "each" and self.columns(c[1][0][1]) and c[1][0][2] == ("item", ("bv",)):
            conds = c[1][0][3]
            if len(conds) == 1 and conds[0][0] == "not" and conds[0][1][0] == "in" and conds[0][1][1] == ("bv",):
                return strings(conds[0][1][2])
        return None

    def select(self, t):
        k = listed(t[2])
        if k[0] == "list" and len(k[1]) == 1 and k[1][0][0] == "each" and self.columns(k[1][0][1]) and k[1][0][2] == ("item", ("bv",)) \
                and len(k[1][0][3]) == 1:
            c = k[1][0][3][0]
            if c[0] == "anyof" and len(c[1]) >= 1 and all(len(y) == 1 for y in c[1]):
                names = [y[0][2][1] if y[0][0] == "eq" and y[0][1] == ("bv",) and y[0][2][0] == "str" else
                         y[0][1][1] if y[0][0] == "eq" and y[0][2] == ("bv",) and y[0][1][0] == "str" else None for y in c[1]]
                names = None if None in names else names
            else:
                names = strings(c[2]) if c[0] == "in" and c[1] == ("bv",) else None
            if names is not None:
                f = self(t[1])
                return f.but(cols={n: v for n, v in f.cols.items() if n in names}, rest=())
        return super().select(t)

    def columns(self, t):
        t = listed(t)
        if t[0] == "set" and len(t[1]) == 1 and t[1][0][0] == "splat":
            t = t[1][0][1]
        return t[0] == "attr" and t[2] == "columns" and self.is_table(t[1]) or self.is_table(t)

    def m_dropna(self, t):
        how = arg(t, 1, "how")
        if how == ("str", "all") and len(t[3]) == 1:
            return self(t[1])
        fail("entries of the log with an empty column are dropped") if how in (None, ("str", "any")) else self.dunno(t)

    def m_filter(self, t):
        f = super().m_filter(t)
        return f.but(cols={n: v for n, v in f.cols.items() if v[0] != "of"})

    def m_reindex(self, t):
        names = strings(arg(t, None, "columns"))
        if names is None or len(t[3]) != 1:
            self.dunno(t)
        f = self(t[1])
        return f.but(cols={n: f.cols[n] for n in names if n in f.cols}, rest=())

    def m_astype(self, t):
        return self(t[1])

    def is_table(self, t):
        return super().is_table(t) or t[0] == "call" and t[1] == "pandas.Series"

    def value(self, v, f, t):
        v = v
        while v[0] == "mcall" and v[2] == "astype":
            v = v[1]
        if v[0] == "call" and v[1] == "pandas.Series" and v[2]:
            v = v[2][0]
        if v[0] == "mcall" and v[2] == "sort_values":
            return ("of other entries",)
        if v[0] == "mcall" and (v[2] in ("shift", "ffill", "bfill", "diff") or v[1][0] == "attr" and v[1][2] == "dt" and v[2] in CHANGES):
            return ("changed", v[2])
        if v[0] in ("list", "tuple") and len(v[1]) == 1 and v[1][0][0] == "each":
            _, coll, (kind, *x), conds = v[1][0]
            c = self.column(coll)
            y = x[0] if kind == "item" else T.NONE
            if y[0] == "mcall" and y[2] in CHANGES and ("bv",) in set(subterms(y)) and not conds:
                return ("changed", y[2])
            if c is not None and not conds and kind == "item" and (c[0].base, c[0].preds, c[0].order) == (f.base, f.preds, f.order):
                if x[0] == ("bv",):
                    return c[1]
                if x[0] == ("mcall", ("bv",), "to_pydatetime", ()) or x[0][0] == "res" and x[0][2] == "to_pydatetime" and x[0][3] == ("bv",):
                    return ("converted", c[1]) if c[1][0] != "converted" else c[1]
            if c is not None and conds:
                fail("only some entries of the log have their time")
        return super().value(v, f, t)


def show(x):
    if x[0] == "src":
        return f"the column {x[1]}"
    if x[0] == "mapped":
        return f"{show(x[2])} with {T.show(x[1])[:80]}"
    if x[0] == "of":
        return f"{x[2]} of the states"
    if x[0] == "const":
        return T.show(x[1])[:80]
    return str(x)[:100]


# ------------------------------------------------------------------------------------------------------------- the log table
def log_leaf(obj):
    """Frames made of the log of the object"""
    def is_log(t):
        return t[0] == "prop" and t[2] == "log" and plain(t[1]) == obj

    def leaf(t):
        if t[0] == "call" and t[1] == "pandas.DataFrame" and len(t[2]) + len(t[3]) == 1 and is_log(arg(t, 0, "data") or T.NONE):
            return Frame(("log",), {c: ("src", c) for c in COLUMNS})
        return None
    return is_log, leaf


class OfLog(Tables):
    def m_replace(self, t):
        if dict(t[3]).get("regex") == T.const(True):
            fail("the ids are taken for patterns")
        return super().m_replace(t)

    def concat(self, t):
        named, pos = kw(t)
        if named.get("join") in (("str", "inner"), ("str", "outer")):       # the same rows on all sides
            t = t[:3] + (tuple(a for a in t[3] if a[0] != "join"),)
        return super().concat(t)

    def m_drop_duplicates(self, t):
        fail("entries of the log are taken for the same and dropped")

    def __init__(self, obj):
        self.is_log, leaf = log_leaf(obj)
        super().__init__(leaf)
        self.frame = Frame(("log",), {c: ("src", c) for c in COLUMNS})

    def leaf_column(self, t):
        if t[0] == "key" and self.is_log(t[1]) and t[2][0] == "str" and t[2][1] in COLUMNS:
            return self.frame, ("src", t[2][1])
        return None


def the_map(m, G):
    """What a term that replaces ids is: ("none",), ("raw", collection) or ("names", collection of activities)"""
    if m[0] == "dict" and not m[1]:
        return ("none",)
    if m[0] == "dict" and len(m[1]) == 1 and m[1][0][0] == "each":
        _, coll, seg, conds = m[1][0]
        if conds:
            fail("only some of the activities are named")
        if seg[0] == "kv" and seg[1:] == (("attr", ("bv",), "id"), ("attr", ("bv",), "name")):
            c = activities_of(coll)
            if c is not None and c[1] in (("list", ()), ("tuple", ()), ("dict", ())):
                return ("none",)
            if c is not None:
                return ("names",) + c
        if seg[0] == "kv":
            if not imprecise(seg) and seg[1][0] == "attr" and seg[2][0] == "attr":
                fail(f"the {T.show(seg[1])[2:]} of the activities is replaced by their {T.show(seg[2])[2:]}")
        undecided(f"the names {T.show(m)[:150]}")
    if m[0] == "dict" and len(m[1]) == 1 and m[1][0][0] == "junk" and G is not None and m[1][0][1] in G.runs:
        _, L, k = m[1][0]
        if all(direct_only(seg, X, L) for X, init, steps, at in G.runs[L] for _, _, added, _ in steps for seg in added.get(k) or ((),)):
            fail("the sub-activities of sub-activities are not named")
    if m[0] == "dict" and len(m[1]) == 1 and m[1][0][0] == "splat":
        return the_map(m[1][0][1], G)
    if m[0] == "copy":
        return the_map(m[1], G)
    if m[0] == "param":
        return ("raw", m)
    undecided(f"the names {T.show(m)[:150]}")


def direct_only(seg, X, L):
    """Names an activity of X or one directly below it"""
    named = ("kv", ("attr", ("bv",), "id"), ("attr", ("bv",), "name"))
    el = ("at", X, L, 0)
    if seg[:1] == ("kv",):
        return T.bind(seg, el) == named
    below = ("attr", el, "sub_processes")
    return len(seg) == 4 and seg[0] == "each" and seg[2] == named and (
        seg[1] == below or seg[1][0] == "list" and set(seg[1][1]) <= {("item", el), ("splat", below)})


def activities_of(coll):
    """(with sub-processes?, collection)"""
    coll = listed(coll)
    if coll[0] == "res" and coll[2] == "get_subprocesses" and coll[4]:
        a = dict(coll[4])
        c = a.get("items", a.get("0", a.get("")))
        return None if c is None else (True, listed(c))
    return (False, coll)


def listed(c):
    while True:
        if c[0] in ("list", "tuple") and len(c[1]) == 1 and c[1][0][0] == "splat":
            c = c[1][0][1]
        elif c[0] in ("list", "tuple") and len(c[1]) == 1 and c[1][0][0] == "each" and c[1][0][2:] == (("item", ("bv",)), ()):
            c = c[1][0][1]
        elif c[0] == "copy":
            c = c[1]
        elif c[0] == "call" and c[1] in ("list", "tuple") and len(c[2]) == 1:
            c = c[2][0]
        else:
            return c


def values_of(p):
    return ("iterator", "values", p)


def kind_of(facts, p):
    """Which form of id_map a path is for: none, list, activities, labels, or None if it could be several"""
    def f(*a):
        return facts.get(a)
    if f("isnone", p) is True:
        return "none"
    if f("isinstance", p, "list") is True or f("eq", ("call", "type", (p,), ()), ("ext", "list")) is True:
        return "list"
    if f("isinstance", p, "dict") is True:
        for a, v in facts.items():
            k = about_elements(a, p)
            if k is not None:
                return "activities" if v == k else "labels"
        return "dict"
    return "other" if f("isinstance", p, "dict") is False and f("isinstance", p, "list") is False else None


def about_elements(a, p):
    """Does the condition say that the values of p are activities (True) or that they are not (False)?  None if it is about neither"""
    neg = False
    while a[0] in ("not",):
        a, neg = a[1], not neg
    if a[0] in ("exists", "forall") and len(a) == 3 and values_base(a[1]) == p or \
            a[0] in ("call", "mcall", "anyof", "allof", "truth") and any(x == p for x in subterms(a)):
        r = elements(a, p)
        if r is not None:
            return r != neg
    return None


def values_base(c):
    c = listed(c)
    if c[0] == "iterator" and c[1] in ("values", "items"):
        c = c[2]
    return c


def elements(a, p):
    """Truth of the condition for a (non-empty) dict of activities, if it is false for a dict of labels, and the other way round"""
    def val(t, activity):
        if t[0] == "not":
            v = val(t[1], activity)
            return None if v is None else not v
        if t[0] == "hasattr" and t[2] in ("id", "name", "sub_processes", "log"):
            if t[2] == "sub_processes":
                return None
            return activity
        if t[0] == "isinstance":
            names = t[2] if isinstance(t[2], tuple) else (t[2],)
            if set(names) <= {"str", "int", "float"}:
                return not activity
            return None
        if t[0] in ("and", "or"):
            ys = t[1] if len(t) == 2 and t[1] and isinstance(t[1][0], tuple) else t[1:]
            vs = [val(y, activity) for y in ys]
            return None if None in vs else all(vs) if t[0] == "and" else any(vs)
        return None
    if a[0] in ("exists", "forall"):
        x, y = val(a[2], True), val(a[2], False)
    else:
        body = [t for t in subterms(a) if isinstance(t, tuple) and t and t[0] in ("hasattr", "isinstance")]
        if len(body) != 1:
            return None
        x, y = val(body[0], True), val(body[0], False)
        if any(t[0] == "not" for t in subterms(a) if isinstance(t, tuple) and t):
            return None
    if x is None or y is None or x == y:
        return None
    return x


def log_table(ck):
    f = function(ck, "get_log_dataframe")
    ps = [a.arg for a in f.node.args.args]
    obj, ids = ("param", ps[0]), ("param", ps[1])
    G = ck.graph(None, None, fn=f, opaque=("log", "get_subprocesses"), setup=setup)
    seen, n = set(), [0]

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        f = OfLog(obj)(v)
        k = kind_of(st.facts, ids)
        if f.preds:
            fail("the log table does not have every entry of the log: only those with "
                 + ", ".join(f"{show(c)} {'in' if y else 'not in'} {sorted(T.show(x) for x in vs)}" for c, vs, y in f.preds))
        if not f.order or f.order[0][0] != (("src", "Timestamp"),):
            fail("the log table is not in the order of the time" + (" but of " + ", ".join(show(c) for c in f.order[0][0]) if f.order else ""))
        if not f.order[0][1]:
            fail("entries with the same time can get another order than in the log")
        if len(f.order) > 1:
            fail(f"entries with the same time are ordered by {show(f.order[1][0][0])}, not as in the log")
        for c in ("Timestamp", "ActivityState"):
            if f.cols.get(c) != ("src", c):
                fail(f"the column {c} is {show(f.cols[c])}" if c in f.cols else f"there is no column {c}")
        if sorted(f.rest, key=str) != ["ActivityLabel", "ObjectState"]:
            if any(isinstance(r, tuple) for r in f.rest):
                fail("the values of the object state or label are changed")
            fail(f"the table shows the values of {', '.join(f.rest) or 'no states'}, not of ObjectState and ActivityLabel")
        extra = set(f.cols) - {"Timestamp", "ActivityState", "Activity"}
        if "Activity" not in f.cols:
            fail("there is no column Activity")
        a = f.cols["Activity"]
        if a == ("src", "ActivityID"):
            m = ("none",)
        elif a[0] == "mapped" and a[2] == ("src", "ActivityID"):
            m = the_map(a[1], G)
        elif a[0] == "looked up":
            fail("activities that id_map does not name lose their id")
        else:
            fail(f"the column Activity is {show(a)}")
        want = {"none": [("none",)], "list": [("names", True, ids)], "activities": [("names", True, values_of(ids))], "labels": [("raw", ids)],
                "other": [("raw", ids), ("none",)], "dict": []}.get(k)
        if want is None:
            undecided("the kind of id_map")
        if k == "dict":
            seen.add(m)
            return
        if k == "other" and m[0] == "names":
            undecided("an id_map that is neither list nor dict")
        if m not in want and not (m == ("none",) and st.facts.get(("truth", ids)) is False):      # nothing to name
            if m[0] == "names" and not m[1] and (True,) + m[2:] in [w[1:] for w in want]:
                fail("the sub-activities of the activities in id_map are not named")
            fail({"none": "without id_map the activities are renamed", "list": "the activities of the list id_map are not named by their names",
                  "activities": "the activities of the dict id_map are not named by their names",
                  "labels": "a manual id_map of ids to labels is not used as it is", "other": "id_map"}[k])
        seen.add(k)

    ck.walk(G, 0, lambda s, e: s, at_exit)
    if not n[0]:
        raise AnalysisBroken("get_log_dataframe has no result")
    dicts = {x for x in seen if isinstance(x, tuple)}
    if dicts:
        if ("raw", ids) not in dicts:
            fail("a manual id_map of ids to labels is taken for a dict of activities")
        if ("names", True, values_of(ids)) not in dicts:
            fail("the activities of the dict id_map are not named by their names")
        undecided("when a dict is taken for one of labels")
    return n[0]


# ------------------------------------------------------------------------------------------------------------- planning chart
def cell(t, elem):
    """Column of the row at hand that the term reads, in a loop over iterrows or itertuples of the frame"""
    if t == ("key", elem, T.num(0)) or t[0] == "attr" and t[1] == elem and t[2] == "Index":
        return "Timestamp"
    if t[0] == "key" and t[1] == ("key", elem, T.num(1)) and t[2][0] == "str":
        return t[2][1]
    if t[0] == "attr" and t[1] in (("key", elem, T.num(1)), elem):
        return t[2]
    return None


def segments(ck):
    """get_segments: the bars from each START of the activity to its next STOP"""
    f = function(ck, "get_segments")
    G = ck.graph(None, None, fn=f, setup=setup)
    df, act, yv = [("param", a.arg) for a in f.node.args.args[:3]]
    outs = {(x[2] if x[1] == "return" else None) for x in G.exits}
    n = 0
    for v in outs:
        if v is None or v[0] != "tuple" or len(v[1]) != 2:
            undecided("what get_segments returns")
        if v[1] == (("item", ("list", ())), ("item", ("list", ()))):
            continue
        n += 1
    if not n:
        fail("no bars are drawn")
    loops = [(L, X) for L, (X, init, steps) in G.steps.items() if X[0] == "mcall" and X[2] in ("iterrows", "itertuples") and df in set(subterms(X))]
    rows = [("mcall", df, x, ()) for x in ("iterrows", "itertuples")]
    if not loops and any(x[0] == "at" and x[1] in rows for v in outs for x in subterms(v) if isinstance(x, tuple) and len(x) == 4):
        fail("there is at most one bar")
    if len(loops) != 1:
        undecided("the loop over the rows")
    L, X = loops[0]
    fr = OfRows(df)(X[1])
    if fr.order:
        fail("the entries are taken in another order")
    for c, vs, y in fr.preds:
        if c[0] == "rows of":
            fail(f"some entries are left out ({c[1]})")
        if c != ("src", "activity_state") and (c, vs) != (("src", "log_string"), frozenset([act])):
            undecided(f"the entries with {show(c)}")

    def taken(row):
        return all((("str", row[0]) in vs if c[1] == "activity_state" else row[1]) == y for c, vs, y in fr.preds)
    _, init, steps = G.steps[L]
    elem = ("at", X, L, 0)
    keys = [k for k in list(steps[0][2])]
    # which list is x, which y: from the result
    xk = yk = None
    for v in outs:
        a, b = v[1][0][1], v[1][1][1]
        for k in keys:
            g = G.grown.get((L, k))
            if g is None:
                continue
            if a[0] == "list" and (a[1] == g[1] or a[1] == (("junk", L, k),)):
                xk = xk or k
            if b[0] == "list" and (b[1] == g[1] or b[1] == (("junk", L, k),)) and k != xk:
                yk = yk or k
    if xk is None or yk is None:
        undecided("the lists of a chart")
    carried = {}

    def reads(t, row, state):
        """The value of a term: ('time', of which row) / y / none"""
        c = cell(t, elem)
        if c == "Timestamp":
            return ("now",)
        if t[0] == "carry" and t[1] == L:
            return ("carry", t[2])
        if t == yv:
            return ("y",)
        if t == T.NONE:
            return ("none",)
        if elem not in set(subterms(t)) and not imprecise(t) and (df in set(subterms(t)) or t[0] in ("num", "str")):
            return ("another value", t)
        undecided(f"the point {T.show(t)[:100]}")

    def holds(a, row):
        if a[0] == "in" and a[1][0] == "str" and cell(a[2], elem) == "activity_state":
            return a[1][1] in row[0]
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                c = cell(x, elem)
                if c == "activity_state" and y[0] == "str":
                    return row[0] == y[1]
                if c == "log_string" and y == act:
                    return row[1]
        if a[0] == "mcall" and a[2] in ("startswith", "endswith") and cell(a[1], elem) == "activity_state":
            s = arg(a, 0)
            if s is not None and s[0] == "str":
                return row[0].startswith(s[1]) if a[2] == "startswith" else row[0].endswith(s[1])
        if a[0] == "truth":
            return holds(a[1], row)
        if a[0] == "not":
            return not holds(a[1], row)
        if a[0] in ("lt0", "eq0") and len(row) == 3:      # a bar of this length
            now = k0 = old = 0
            for m, k in T.to_poly(a[1]).items():
                if m == ():
                    k0 = k
                elif len(m) == 1 and m[0][1] == 1 and cell(m[0][0], elem) == "Timestamp":
                    now = k
                elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "carry" and m[0][0][1] == L:
                    old += k
                else:
                    return None
            if now and now == -old:
                x = now * row[2] + k0
                return x < 0 if a[0] == "lt0" else x == 0
        return None

    def many(a):
        """Is the condition about the number of points so far only?"""
        xs = [m for m in T.to_poly(a[1]) if m != ()]
        return all(len(m) == 1 and m[0][0][0] == "len" and m[0][0][1][0] in ("carry", "list") for m in xs)

    def about(a):
        return any(x == elem for x in subterms(a))

    table = {}
    for row in [(s, m) for s in ("START", "UNKNOWN") for m in (True, False)] + [("STOP", True, 0), ("STOP", True, 5), ("STOP", False)]:
        if not taken(row):
            if row[0] != "UNKNOWN" and row[1]:
                fail(f"the {row[0]} entries of the activity are left out")
            continue
        if True:
            fits = []
            for facts, new, added, kind in steps:
                ok = True
                for a, v in facts.items():
                    if not about(a) and not any(isinstance(x, tuple) and x and x[0] == "carry" for x in subterms(a)):
                        continue
                    h = holds(a, row)
                    c = a[1] if a[0] in ("truth", "isnone") and a[1][0] == "carry" and a[1][1] == L else None
                    if h is None and c is not None:     # a bar has begun before a STOP; before a START both is possible
                        h = (a[0] == "truth") if row[:2] == ("STOP", True) else v
                    if h is None and a[0] in ("lt0", "eq0") and row[:2] != ("STOP", True):
                        h = v
                    if h is None and a[0] == "lt0" and many(a):
                        h = v
                    if h is None:
                        undecided(f"the condition {T.show(a)[:150]} of a bar")
                    if h != v:
                        ok = False
                        break
                if ok:
                    fits.append((new, added, kind))
            if not fits:
                undecided("no way to go on after a row")
            table[row] = fits
    rows = [(row, fit) for row, fits in table.items() for fit in fits]
    for row, (new, added, kind) in rows:
        if kind not in ("next", "continue"):
            fail(f"the bars end at {'an' if row[1] else 'another activity’s'} {row[0]} entry")
        if added[xk] is None or added[yk] is None:
            undecided("the points of a bar")
        if row[:2] != ("STOP", True) and (added[xk] or added[yk]):
            fail(f"a bar is drawn at a {row[0]} entry of {'the' if row[1] else 'another'} activity")
    # the variable that holds the start
    begins = set()
    for row, (new, added, kind) in rows:
        if row[:2] != ("STOP", True):
            continue
        xs = [reads(s[1], None, None) for s in added[xk] if s[0] == "item"]
        ys = [reads(s[1], None, None) for s in added[yk] if s[0] == "item"]
        if len(xs) != len(added[xk]) or len(ys) != len(added[yk]):
            undecided("the points of a bar")
        if not xs and not ys:
            fail("no bar is drawn at " + ("some" if len(table[row]) > 1 else "the") + " STOP entries of the activity" + (" for a range of no length" if row[2] == 0 else ""))
        if len(xs) != len(ys):
            fail("the points of a bar have not as many x as y")
        line = [x for x, y in zip(xs, ys) if y == ("y",)]
        gap = [i for i, y in enumerate(ys) if y == ("none",)]
        if not gap or gap[-1] != len(ys) - 1 or gap != list(range(gap[0], len(ys))):
            fail("the bars of an activity are joined to each other")
        if not line or line[0][0] != "carry" or line[-1] != ("now",):
            fail("a bar does not reach from the START to the STOP of the activity")
        var = line[0][1]
        begins.add(var)
        if any(x not in (("now",), ("carry", var)) for x in line) or sorted(line, key=lambda x: x != ("carry", var)) != line:
            fail("a bar does not go straight from the START to the STOP of the activity")
    if len(begins) != 1:
        undecided("where the bars begin")
    var = begins.pop()
    for row, (new, added, kind) in rows:
        if row == ("START", True) and reads(new.get(var, T.NONE), None, None) != ("now",):
            fail("a bar does not begin at the time of the START entry")
        if row == ("START", True) or row[:2] == ("STOP", True):
            continue
        if reads(new.get(var, T.NONE), None, None) != ("carry", var):
            fail(f"the begin of a bar is moved by a {row[0]} entry of {'the' if row[1] else 'another'} activity")
    return len(table)


class OfRows(Tables):
    """Selections of the rows given to get_segments"""

    def __init__(self, df):
        frame = Frame(("rows",), {n: ("src", n) for n in ("Timestamp", "activity_state", "log_string")}, rest=("states",))
        super().__init__(lambda t: frame if t == df else None)


class OfTable(Tables):
    """Frames made of the log table of an object"""

    def m_drop_duplicates(self, t):
        by = strings(arg(t, 0, "subset"))
        if by and not {"ActivityState", "activity_state"} & set(by):
            fail(f"entries with the same {' and '.join(by)} are taken for the same")
        self.dunno(t)

    def __init__(self, table):
        self.table = table

        def leaf(t):
            if t == table:
                return Frame(("table",), {"Timestamp": ("src", "Timestamp"), "ActivityState": ("src", "ActivityState"), "Activity": ("src", "Activity")},
                             rest=("states",))
            return None
        super().__init__(leaf)


def calls(t, name):
    return {x for x in subterms(t) if isinstance(x, tuple) and len(x) == 5 and x[0] == "res" and x[2] == name}


def one_arg(t, name, i):
    a = dict(t[4])
    return a.get(name, a.get(str(i)))


def gantt(ck, dicts):
    f = function(ck, "get_gantt_chart")
    names = [a.arg for a in f.node.args.args]
    P = {n: ("param", n) for n in names}
    out = [0]
    for activities, scale in (("none", "text"), ("given", "text"), ("none", "numbers"), ("given", "numbers")):
        binds = {"id_map": T.NONE, "colors": ("param", "colors"), "y_scale": ("str", scale)}
        if activities == "none":
            binds["activities"] = T.NONE
        G = ck.graph(None, None, fn=f, bindings=binds, setup=setup,
                     opaque=("log", "get_subprocesses", "get_log_dataframe", "get_colors", "get_segments", "add_layout_gantt_chart"))
        drawn = {"list": 0, "dict": 0}
        done = set()
        for n, kind, v, st in G.exits:
            if kind != "return":
                continue
            if v[0] != "res" or v[2] != "add_layout_gantt_chart":
                undecided(f"the chart {T.show(v)[:100]}")
            traces = one_arg(v, "traces", 0)
            if traces is None or traces[0] != "list" or len(traces[1]) > 1:
                undecided("the traces of the chart")
            if not traces[1]:
                continue
            for X, scatter, elem, facts in trace(G, traces[1][0], st):
                if (X, scatter) in done:
                    continue
                done.add((X, scatter))
                forms = [is_dict(facts, P[x]) for x in ("concepts", "activities")]
                if None in forms[:1]:
                    undecided("what happens to a dict of concepts")
                isdict = forms[0]
                concepts = values_of(P["concepts"]) if isdict else P["concepts"]
                if check_trace(G, X, scatter, elem, concepts, P, activities, scale, *forms):
                    drawn["dict" if isdict else "list"] += 1
                    out[0] += 1
        if not drawn["list"] or not drawn["dict"]:
            undecided("the chart of a list and of a dict of concepts")
    return out[0]


def part_of(X):
    """Does a loop go over a part of a list only?"""
    while X[0] == "iterator" and X[1] == "enumerate":
        X = X[2]
    X = listed(X)
    return X[0] == "slice" and all(x[0] in ("num", "none") for x in X[2:]) and X[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE))


def trace(G, seg, st):
    """(collection, Scatter, element) of the loops that make the traces"""
    if seg[0] == "each" and seg[2][0] == "item":
        if seg[3]:
            fail(f"only the activities with {T.show(seg[3][0])[:100]} are drawn")
        return [(by_value(seg[1]), by_value(T.inst(seg[2][1], ("the", "trace"))), ("the", "trace"), st.facts)]
    if seg[0] != "junk" or len(seg) < 3 or seg[1] not in G.runs:
        undecided("the traces of the chart")
    _, L, k = seg
    out = []
    for X, init, steps, at in G.runs[L]:
        res = None
        for facts, new, added, kind in steps:
            if added.get(k) is None or kind not in ("next", "continue"):
                undecided("the traces of the chart")
            if len(added[k]) != 1 or added[k][0][0] != "item":
                if not added[k]:
                    fail("some activities are not drawn")
                undecided("the traces of an activity")
            s = added[k][0][1]
            if res is not None and res != s:
                res = prefer(res, s)
            else:
                res = s
        out.append((by_value(X), by_value(T.replace(res, ("at", X, L, 0), ("the", L))), ("the", L), at))
    return out


def by_value(t):
    """Loops over the keys of a dict that look at the values only, as loops over the values"""
    if not isinstance(t, tuple):
        return t
    t = tuple(by_value(x) for x in t)
    if t[:1] == ("each",) and len(t) == 4:
        base, conds = t[1], ()
        if base[:1] == ("filter",) and len(base) == 3:
            base, conds = base[1:]
        body = tuple(T.inst(x, ("its key",)) for x in (("and",) + conds,) + t[2:3] + (("and",) + t[3],))
        new = tuple(T.replace(x, ("key", base, ("its key",)), ("its value",)) for x in body)
        if new != body and ("its key",) not in set(subterms(new)):
            c, seg, d = (T.bind(x, ("its value",)) for x in new)
            return ("each", ("filter", values_of(base), c[1:]) if conds else values_of(base), seg, d[1:])
    return t


def prefer(a, b):
    """Of two forms of a trace, the one with bars (the other one is that of no objects with a log)"""
    def bars(t):
        return any(isinstance(x, tuple) and x and x[0] == "each" for x in subterms(arg(t, None, "x") or T.NONE))
    if bars(a) and not bars(b):
        return a
    if bars(b) and not bars(a):
        return b
    return a


def is_dict(facts, p):
    """What a path says about p"""
    if facts.get(("isinstance", p, "dict")) is not None:
        return facts[("isinstance", p, "dict")]
    if facts.get(("isinstance", p, "list")) is True:
        return False
    return facts.get(("eq", ("call", "type", (p,), ()), ("ext", "dict")))


def own_activities(coll, concepts):
    """Are these all activities of the logs of the concepts?"""
    return coll[0] == "list" and len(coll[1]) == 1 and coll[1][0][0] == "each" and same(listed(coll[1][0][1]), concepts) \
        and not coll[1][0][3] and plain(coll[1][0][2]) == ("splat", ("key", ("prop", ("bv",), "log"), ("str", "ActivityID")))


def element_of(X, elem):
    """The element of the collection behind a loop over enumerate or range"""
    if X[0] == "iterator" and X[1] == "enumerate":
        return listed(X[2]), ("key", elem, T.num(1))
    if X[0] == "iterator" and X[1] == "range" and X[3][0] == "len" and X[2] == T.num(0):
        return listed(X[3][1]), None
    return listed(X), elem


def check_trace(G, X, scatter, elem, concepts, P, activities, scale, isdict_c, isdict):
    if scatter[0] != "call" or not scatter[1].endswith(".Scatter"):
        undecided(f"the trace {T.show(scatter)[:100]}")
    if arg(scatter, None, "x") == arg(scatter, None, "y") == ("list", ()):      # no object has a log
        return False
    coll, el = element_of(X, elem)
    # which activities are drawn
    if activities == "given":
        want = [values_of(P["activities"]) if isdict else P["activities"]]
        drawn = own_activities(coll, concepts)
        if coll not in want and drawn:
            return False                # the path without activities given
        if coll not in want:
            fail(f"the activities drawn are {T.show(coll)[:120]}, not those given") if not imprecise(coll) else undecided("the activities drawn")
    else:
        ok = own_activities(coll, concepts)
        if not ok:
            u = coll[0] == "list" and len(coll[1]) == 1 and coll[1][0][0] == "each"
            if u and coll[1][0][3]:
                fail("the activities of some concepts are not drawn")
            if u and coll[1][0][2][0] == "splat" and coll[1][0][2][1][0] == "slice" and all(x[0] in ("num", "none") for x in coll[1][0][2][1][2:]):
                fail("only some activities of a log are drawn")
            one = coll[1] if coll[0] == "key" and coll[2] == ("str", "ActivityID") else None
            if one is not None and one[0] == "prop" and one[2] == "log" and one[1][0] == "at" and same(listed(one[1][1]), concepts):
                fail("only the activities of one of the concepts are drawn")
            undecided(f"the activities drawn {T.show(coll)[:150]}")
    bars = bars_of(G, arg(scatter, None, "x"), arg(scatter, None, "y"), isdict_c, concepts, elem)
    for c, conds, xs, ys in bars:
        for i, seg in enumerate((xs, ys)):
            if seg[0] != "splat" or seg[1][0] != "key" or seg[1][1][0] != "res" or seg[1][1][2] != "get_segments" or seg[1][2][0] != "num":
                undecided(f"the points of a trace {T.show(seg)[:150]}")
            if seg[1][2] != T.num(i):
                fail("the points of the bars are exchanged" if seg[1][2] == T.num(1 - i) else "the points of the bars")
        c = listed(c)
        while c[0] == "filter":
            conds = conds + c[2]
            c = listed(c[1])
        if not same(c, concepts):
            undecided(f"the objects drawn {T.show(c)[:120]}")
        for a in conds:
            if not has_log(a):
                fail(f"objects without {T.show(a)[:100]} are not drawn") if not imprecise(a) else undecided("the objects drawn")
        if plain(xs[1][1]) != plain(ys[1][1]):
            fail("the two coordinates of the bars are those of different bars")
        check_bars(xs[1][1], el, scatter, scale, elem[1])
    return True


OBJECT = ("the object",)


def bars_of(G, xs, ys, isdict, concepts, elem):
    """[(objects, conditions, x, y)]: the points of a trace, for each of the objects"""
    ts = []
    for t in (xs, ys):
        if t is not None and t[0] == "slice" and all(x[0] in ("num", "none") for x in t[2:]) and t[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE)):
            fail("some points of a trace are left out")
        if t is None or t[0] != "list" or len(t[1]) != 1:
            undecided(f"the points of a trace {T.show(t)[:150] if t else ''}")
        ts.append(t[1][0])
    if all(t[0] == "each" for t in ts):
        if ts[0][1] != ts[1][1] or ts[0][3] != ts[1][3]:
            undecided("the objects of a trace")
        return [(ts[0][1], ts[0][3]) + tuple(T.inst(t[2], OBJECT) for t in ts)]
    if any(t[0] != "junk" or len(t) < 3 or t[1] not in G.runs for t in ts) or ts[0][1] != ts[1][1]:
        undecided(f"the points of a trace {T.show(xs)[:150]}")
    out = []
    L = ts[0][1]
    for X, init, steps, at in G.runs[L]:
        if is_dict(at, ("param", "concepts")) is not isdict:
            continue
        if part_of(X):
            fail("only some of the objects are drawn")
        for facts, new, added, kind in steps:
            a = [added.get(t[2]) for t in ts]
            if None in a or kind not in ("next", "continue"):
                undecided("the points of a trace")
            if any(len(x) != 1 for x in a):
                fail("some objects are not drawn") if not any(a) else undecided("the points of a trace")
            a = [x[0] for x in a]
            tables = calls(tuple(a), "get_log_dataframe")
            objs = {one_arg(t, "simulation_object", 0) for t in tables}
            if len(objs) != 1:
                undecided("the object of a trace")
            obj = next(iter(objs))
            if obj[0] == "key" and obj[1] == concepts[-1] and obj[2][0] == "at" and isdict:      # by its key
                c = obj[2][1]
                c = ("filter", concepts, tuple(T.bind(T.replace(T.inst(x, ("k",)), ("key", concepts[-1], ("k",)), ("v",)), ("v",))
                                                for x in c[2])) if c[0] == "filter" else concepts
            elif obj[0] == "at" and obj[2] == L and obj[3] == 0:
                c = obj[1]
            else:
                undecided(f"the object of a trace {T.show(obj)[:100]}")
            a = [T.subst(x, lambda y: elem if len(y) == 4 and y[0] == "at" and y[2] == elem[1] and y[3] == 0 else None) for x in a]
            out.append((by_value(c), ()) + tuple(by_value(T.replace(x, obj, OBJECT)) for x in a))
    return out


def check_bars(g, el, scatter, scale, loop):
    """The bars of an activity at an object"""
    g_loop = loop
    # the rows
    table = calls(one_arg(g, "df", 0), "get_log_dataframe")
    if len(table) != 1:
        undecided("the table of the bars")
    table = next(iter(table))
    if one_arg(table, "simulation_object", 0) != OBJECT:
        fail("the bars are those of another object")
    f = OfTable(table)(one_arg(g, "df", 0))
    kept = {s for s in STATES if all((("str", s) in vs) == y for v, vs, y in f.preds if v == ("src", "ActivityState"))}
    if any(v != ("src", "ActivityState") for v, vs, y in f.preds):
        fail("entries are left out by something else than their state")
    if not {"START", "STOP"} <= kept:
        fail(f"the {' and '.join(sorted({'START', 'STOP'} - kept))} entries are left out")
    if kept & {"WAIT_START", "WAIT_STOP"}:
        fail(f"waiting is drawn as work: {' and '.join(sorted(kept & {'WAIT_START', 'WAIT_STOP'}))} entries are kept")
    if f.order:
        fail("the entries are drawn in another order than that of the table")
    if f.index != ("col", ("src", "Timestamp")):
        fail(f"the bars are drawn at {show(f.index[1]) if isinstance(f.index, tuple) else 'the number of the row'}, not at the time")
    for name, src in (("activity_state", "ActivityState"), ("log_string", "Activity")):
        if f.cols.get(name) != ("src", src):
            fail(f"the column {name} is not {src}")
    # the same names on both sides
    ids = one_arg(table, "id_map", 1)
    a = one_arg(g, "activity", 1)
    if el is None:
        undecided("the activity of a trace")
    name = label(a, el)
    if ids is None or ids == T.NONE:
        tm = ("none",)
    else:
        tm = ("names", True, listed(ids)) if not ids[0] == "dict" else the_map(ids, None)
    if name != tm and not (name[0] == "names" and tm[0] == "names" and name[1] == tm[1] and same(name[2], tm[2])):
        if name[0] == "names" and tm[0] == "names" and not name[1]:
            fail("sub-activities of the concepts are named in the table but not in the list of activities: their bars are missing")
        fail("the activities are not named as in the table: their bars are missing")
    # row of the object
    y = one_arg(g, "y_val", 2)
    if y == ("attr", OBJECT, "name"):
        pass
    elif scale == "numbers":
        its = {x for x in subterms(y) if x[:1] == ("it",)}
        if its and not imprecise(y) and all(x[1] == g_loop for x in its):
            fail("the bars are drawn on the row of their activity, not on that of their object")
        if any(x[:2] == ("op", "Mod") and x[3][0] == "num" for x in subterms(y)):
            fail("several objects have the same row")
        if y[0] in ("str", "param", "num") or y == el:
            fail(f"the bars are drawn on the row {T.show(y)[:60]}, not on that of their object")
    else:
        fail(f"the bars are drawn on the row {T.show(y)[:60]}, not on that of their object")
    nm = arg(scatter, None, "name")
    if nm is not None and not any(x == el for x in subterms(nm)):
        fail("the trace does not have the name of its activity")


def label(a, el):
    """How the activity el is named"""
    if a == el:
        return ("none",)
    if a[0] == "dget" and a[2] == el and a[3] == el:
        return the_map(a[1], None)
    if a[0] == "key" and a[2] == el:
        return the_map(a[1], None)
    undecided(f"the name {T.show(a)[:150]}")


def same(a, b):
    a, b = listed(a), listed(b)
    return a == b or plain(a) == plain(b)


def has_log(a):
    a = plain(a)
    t = [x for x in subterms(a) if isinstance(x, tuple) and x and x[0] == "prop"]
    if not t or any(x[1] != ("bv",) or x[2] != "log" for x in t):
        return False
    a_ = T.show(a)
    return a[0] == "lt0" and any(x[0] == "len" for x in subterms(a) if isinstance(x, tuple) and x) and T.lt0(T.neg(next(
        x for x in subterms(a) if isinstance(x, tuple) and x and x[0] == "len"))) == a or a[0] == "truth"


def layout(ck):
    """The chart shows the traces it is given"""
    f = function(ck, "add_layout_gantt_chart")
    P = [("param", a.arg) for a in f.node.args.args]
    G = ck.graph(None, None, fn=f, setup=setup)
    n = [0]

    def data(t):
        return t is not None and listed(t) == P[0]

    def figure(t):
        if t[:1] == ("call",) and isinstance(t[1], str) and t[1].endswith(".Figure"):
            if not data(arg(t, 0, "data")):
                undecided("the data of the figure") if imprecise(arg(t, 0, "data") or ("?",)) else fail("the figure does not show the traces")
            n[0] += 1
        for x in t:
            if isinstance(x, tuple):
                figure(x)

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        if v[0] == "dict":
            d = {x[1]: x[2] for x in v[1] if x[0] == "kv"}
            if not data(d.get(("str", "data"))):
                undecided("the data of the chart") if imprecise(d.get(("str", "data"), T.NONE)) else fail("the chart does not show the traces")
            n[0] += 1
        elif v != T.NONE:
            figure(v)

    ck.walk(G, 0, lambda s, e: s, at_exit)
    if n[0] < 2:
        undecided("the figure")
    return n[0]


# ------------------------------------------------------------------------------------------------------------- step chart
def step_chart(ck):
    f = function(ck, "get_step_chart")
    objs, cmap = [("param", a.arg) for a in f.node.args.args[:2]]
    G = ck.graph(None, None, fn=f, setup=setup, opaque=("get_log_dataframe", "container_list"))
    n = [0]

    def owner(t):
        ts = calls(t, "get_log_dataframe")
        return next(iter(ts)) if len(ts) == 1 else None

    def step(s, e):
        if e.kind == "iter" and e.recv is not None:
            r = plain(e.recv)
            if part_of(r):
                b = listed(r)[1]
                if listed(b) == objs or b[0] == "prop" and b[2] == "container_list":
                    fail(f"only some {'objects' if listed(b) == objs else 'containers'} are drawn", e)
            if listed(r) == objs:
                return ("object", e.args["elem"], None, False)
            if r[0] == "prop" and r[2] == "container_list":
                if s[0] != "object" and s[0] != "container" or r[1] != ("attr", plain(s[1]), "container"):
                    fail("the containers are not those of the object", e)
                return ("container", s[1], e.args["elem"], False)
            return s
        if e.kind == "call" and e.name in ("matplotlib.pyplot.plot", "matplotlib.pyplot.step", "plot", "step"):
            n[0] += 1
            if s[0] != "container":
                undecided("a line that is not that of a container", e)
            if s[3]:
                fail("the levels of a container are drawn twice", e)
            draw(s, e)
            return s[:3] + (True,)
        if e.kind in ("back", "break") and e.recv is not None:
            r = plain(e.recv)
            if r[0] == "prop" and r[2] == "container_list" and s[0] == "container":
                if e.kind == "break":
                    fail("only some containers of an object are drawn", e)
                if not s[3] and not excused(e.facts, s):
                    fail("the levels of a container are not drawn", e)
                return ("object", s[1], None, False)
            if listed(r) == objs and e.kind == "break":
                fail("only some objects are drawn", e)
        return s

    def excused(facts, s):
        for a, v in facts.items():
            if v is False and (a[0] == "hasattr" and a[2] == "container level" or a[0] == "in" and a[1] == ("str", "container level")):
                t = owner(a)
                if t is not None and one_arg(t, "simulation_object", 0) == s[1]:
                    return True
        return False

    def draw(s, e):
        x, y, lab = e.args.get("0"), e.args.get("1"), e.args.get("label")
        _, obj, cont, _ = s
        if x is None or y is None:
            undecided("the points of a line", e)
        t = owner(x)
        if t is None or owner(y) is None:
            undecided("the table of a line", e)
        for u in (t, owner(y)):
            if one_arg(u, "simulation_object", 0) != obj:
                fail("the levels of another object are drawn", e)
        tab = OfTable(t)
        cx = tab.column(x)
        changed(tab, x, e)
        x = listed(x)
        if cx is None and x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each" and x[1][0][2][0] == "item" and not x[1][0][3]:
            c, body = tab.column(x[1][0][1]), x[1][0][2][1]
            if c is not None and body == ("bv",):
                cx = c
            elif c is not None and body[0] == "poly" and not imprecise(body):
                fail(f"the levels are not drawn at the times of the entries but at {T.show(body)[:80]}", e)
        if cx is None:
            undecided("the times of a line", e)
        if cx[1] != ("src", "Timestamp") or cx[0].preds or cx[0].order:
            fail(f"the levels are drawn against {show(cx[1])} of {'some' if cx[0].preds else 'the'} entries", e)
        cy = OfTable(owner(y)).column(y)
        many = None
        for a, v in e.facts.items():
            if a[0] == "isinstance" and a[2] == "dict" and owner(a) is not None and "container level" in str(a):
                many = v
        if cy is not None:
            if cy[1] != ("of", ("states",), "container level") or cy[0].preds or cy[0].order:
                fail(f"{show(cy[1])} is drawn, not the level of the container", e)
            if many is None and not any(owner(a) is not None and a[0] not in ("hasattr", "in") or ("attr", obj, "container") in set(subterms(a))
                                        for a in e.facts):
                fail("the levels of all containers of an object are drawn as one", e)
            if many is True:
                fail("the levels of all containers of an object are drawn as one", e)
            return finish(lab, obj, cont, e)
        y = listed(y)
        while y[0] in ("mcall", "res") and y[2] in ("tolist", "to_list"):
            y = y[1] if y[0] == "mcall" else y[3]
        m = y if y[0] == "mcall" else ("mcall", y[3], y[2], y[4]) if y[0] == "res" else ("",)
        if m[0] == "mcall" and m[2] in ("map", "apply") and len(m[3]) == 1 and m[3][0][1][0] == "fun":
            y = ("list", (("each", m[1], ("item", m[3][0][1][1]), ()),))
        changed(tab, y, e)
        if y[0] == "list" and len(y[1]) == 1 and y[1][0][0] == "each":
            _, c, seg, conds = y[1][0]
            changed(tab, c, e)
            cc = OfTable(owner(y)).column(c)
            if cc is None or seg[0] != "item":
                undecided("the levels of a line", e)
            if conds:
                fail("only some of the levels are drawn", e)
            if cc[1] != ("of", ("states",), "container level") or cc[0].preds or cc[0].order:
                fail(f"{show(cc[1])} is drawn, not the level of the container", e)
            if many is False:
                fail("a single level is taken for those of several containers", e)
            if seg[1][0] == "cases" and many is None:       # decided for every entry
                vs = {x: level(seg[1], x) for x in (True, False)}
                if vs[False] != ("bv",):
                    undecided("the levels of a line", e)
                seg = (seg[0], vs[True])
            if seg[1][0] == "dget" and seg[1][1:3] == (("bv",), cont):
                seg = (seg[0], ("key", ("bv",), cont))
            if seg[1] != ("key", ("bv",), cont):
                if imprecise(seg[1]):
                    undecided("the levels of a line", e)
                fail(f"the level drawn is {T.show(seg[1])[:80]}, not that of the container", e)
            return finish(lab, obj, cont, e)
        undecided("the levels of a line", e)

    def level(t, several):
        """What a term about the level of an entry is for several containers"""
        def val(c):
            if c[0] == "not":
                return not val(c[1])
            if c[0] == "isinstance" and c[1] == ("bv",) and c[2] == "dict":
                return several
            if c[0] == "anyof":
                return any(all(val(x) for x in k) for k in c[1])
            undecided(f"the condition {T.show(c)[:100]}")
        if t[0] != "cases":
            return t
        for c, v in t[1]:
            if val(c):
                return level(v, several)
        undecided("the level drawn")

    def changed(tab, t, e):
        """Other values than those of a column"""
        t = listed(t)
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "each" and not imprecise(t[1][0][2]):
            t = listed(t[1][0][1])
        if t[0] in ("mcall", "res") and t[2] in CHANGE and tab.column(t[1] if t[0] == "mcall" else t[3]) is not None:
            fail(f"the values of the entries are changed ({t[2]})", e)
        if t[0] == "slice" and t[2:4] == (T.NONE, T.NONE) and t[4:] == (T.num(-1),):
            fail("the entries are put in another order", e)
        if t[0] in ("slice", "sorted", "set") and not imprecise(t):
            fail({"slice": "some entries are left out", "sorted": "the entries are put in another order", "set": "entries are taken for the same"}[t[0]], e)

    def finish(lab, obj, cont, e):
        if lab is not None and ("attr", obj, "name") not in set(subterms(lab)):
            fail("the line is not labelled with the name of its object", e)

    ck.walk(G, ("start", None, None, False), step)
    if not n[0]:
        undecided("where the levels are drawn")
    return n[0]


def run(ck):
    ck.ob("the log in lists has every entry of the logbook as it is", "Log.log", lambda: log_property(ck))
    ck.ob("the log table has every entry in order, with its time, state, activity and state values", "get_log_dataframe", lambda: log_table(ck))
    ck.ob("a bar of the planning chart reaches from a START to the next STOP of the activity", "get_segments", lambda: segments(ck))
    ck.ob("the planning chart has the bars of every activity on the rows of all objects", "get_gantt_chart", lambda: gantt(ck, True))
    ck.ob("the planning chart shows its traces", "add_layout_gantt_chart", lambda: layout(ck))
    ck.ob("the step chart has the level of every container of every object", "get_step_chart", lambda: step_chart(ck))
