"""Term analysis of the critical-path table, with a truth table over the rows of the recorded activities.

The returned table is read as a term over the table of recorded activities.  How often a row occurs in it is computed for every
combination of: recorded by an activity rather than a simulation object, critical, and (for rows of activities) whether a simulation
object recorded the same execution; and compared with the specification.  The column is_critical must hold whether the execution is among those
reported by the graph that was made from the recorded activities and the dependencies, and the recorded table must not be changed.
"""

import ast
import itertools

import terms as T
from lib import IMPRECISE, SELF, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["the table of recorded activities and the dependencies are those of C38, C27, C40 and C41"]
OPAQUE = ("get_recorded_activity_df", "_make_recorded_activities_df", "get_dependency_list", "get_list_critical_activities")
SAME = {"copy", "reset_index", "sort_values", "sort_index", "rename_axis", "infer_objects", "convert_dtypes"}
IDS = {"unique", "tolist", "to_list", "to_numpy", "copy", "drop_duplicates", "dropna"}
ALL = ("call", "slice", (T.NONE, T.NONE, T.NONE), ())
ROWS = [dict(zip("ACD", c)) for c in itertools.product((False, True), repeat=3) if c[0] or not c[2]]


def say(row):
    return (("a row of an activity" if row["A"] else "a row of a simulation object") + (" that is critical" if row["C"] else " not critical")
            + ((", recorded by a simulation object as well" if row["D"] else ", recorded by no simulation object") if row["A"] else ""))


def kwargs(t):
    return dict(t[3] if t[0] in ("mcall", "call") else t[4])


def norm(t):
    """Results of methods of a table as method call terms"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "res" and len(t) == 5 and not recorded(t) and t[2] != "get_list_critical_activities" and isinstance(
            t[3], tuple) and table(t[3]):
        return ("mcall", norm(t[3]), t[2], tuple(("" if k in ("0", "") else k, norm(v)) for k, v in t[4]))
    return tuple(norm(c) for c in t)


def recorded(t):
    return t == attr(SELF, "recorded_activities_df") or t[0] == "res" and t[2] == "get_recorded_activity_df" and t[3] == SELF


def uncopied(t):
    while t[0] == "mcall" and t[2] in ("copy",):
        return False
    return recorded(t)


def table(t):
    """The table that the column or selection t is taken from, if it derives from the recorded activities"""
    return any(recorded(x) for x in subterms(t))


def column(t, name):
    """The table of the column"""
    if t[0] == "attr" and t[2] == name and table(t[1]):
        return t[1]
    if t[0] == "key" and t[2] == ("str", name) and table(t[1]):
        return t[1]
    if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "loc" and t[2][0] == "tuple" and len(t[2][1]) == 2 and t[2][1][1][1] == (
            "str", name):
        m = t[2][1][0][1]
        return t[1][1] if m == ALL else ("key", t[1], m)
    return None


def reported(t):
    while t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "splat" or t[0] == "call" and t[1] in ("set", "list"):
        t = t[1][0][1] if t[0] != "call" else t[2][0]
    return t[0] == "res" and t[2] == "get_list_critical_activities"


OTHER = ("state", "duration", "start_time", "end_time", "Activity", "ActivityID")


def columns(t):
    """The columns that the term reads, without those that select the rows they are read from"""
    if not isinstance(t, tuple):
        return set()
    if t and t[0] in ("attr", "key"):
        for name in OTHER + ("SimulationObject", "is_critical", "cp_activity_id"):
            if column(t, name) is not None:
                return {name}
    return set().union(set(), *(columns(x) for x in t))


def clear(t):
    """Is every part of the term understood?"""
    return not any(x[0] in IMPRECISE and x[0] not in ("mcall", "call", "res") or x[0] == "closure" or x[0] in ("param", "global", "phi", "vol")
                   and x != SELF or x[0] in ("call", "mcall") and str(x[1] if x[0] == "call" else x[2]).rsplit(".", 1)[-1] not in READ
                   or x[0] == "res" and not recorded(x) and not reported(x) for x in subterms(t))


KEPT = ("SimulationObject", "Activity", "start_time", "end_time", "cp_activity_id", "state", "duration", "ActivityID")
DROP = {"head", "tail", "dropna", "nlargest", "nsmallest", "sample", "truncate", "first", "last", "explode"}
READ = SAME | IDS | DROP | {"isin", "eq", "ne", "lt", "gt", "le", "ge", "assign", "concat", "slice", "drop_duplicates", "set", "list",
                            "sorted", "len", "logical_and", "logical_or", "logical_not", "isna", "notna", "isnull", "notnull",
                            "total_seconds", "Timedelta", "duplicated", "groupby", "get_list_critical_activities", "lower", "upper"}


class Free(Exception):
    pass


def free(m):
    """A comparison of another column with a constant: it may hold and may not hold for rows of every kind"""
    if m[0] not in ("lt0", "eq0", "eq") and not (m[0] == "mcall" and m[2] in ("gt", "lt", "ge", "le", "eq", "ne", "isin")):
        return False
    cols = columns(m)
    if len(cols) != 1 or not cols <= set(OTHER):
        return False
    if "duration" in cols and m[0] == "lt0":        # a duration is not negative
        p = dict(m[1][1]) if m[1][0] == "poly" else {}
        k = [c for x, c in p.items() if x and table(x[0][0])]
        rest = [x for x in p if not (x and table(x[0][0]))]
        return len(k) == 1 and (k[0] < 0 or any(p[x] < 0 for x in rest))
    return not any(x[0] in ("param", "phi", "vol", "junk") and x != SELF for x in subterms(m))


class Rows:
    def both(self, f, row):
        """The values of f for both truth values of the comparisons it depends on"""
        try:
            return {f(row)}
        except Free as x:
            m = x.args[0]
        return self.both(f, {**row, ("free", m): True}) | self.both(f, {**row, ("free", m): False})

    def count(self, t, row):
        if recorded(t):
            return 1
        if t[0] == "copy":
            return self.count(t[1], row)
        if t[0] == "setcol":
            return self.count(t[1], row)
        if t[0] == "mcall" and t[2] == "assign" or t[0] == "mcall" and t[2] in SAME:
            return self.count(t[1], row)
        if t[0] == "key" and t[1][0] == "attr" and t[1][2] == "loc":
            m = t[2]
            if m[0] == "tuple" and len(m[1]) == 2:
                if m[1][1][1] != ALL:
                    undecided(f"the columns {T.show(m[1][1][1])[:100]}")
                m = m[1][0][1]
            return self.count(t[1][1], row) * self.mask(m, row)
        if t[0] == "key" and t[2][0] != "str":
            return self.count(t[1], row) * self.mask(t[2], row)
        if t[0] == "filter":
            undecided("rows selected one by one")
        if t[0] == "call" and t[1] == "pandas.concat":
            xs = t[2][0] if t[2] else kwargs(t).get("objs")
            if xs is None or xs[0] not in ("list", "tuple") or any(s[0] != "item" for s in xs[1]):
                undecided(f"the tables put together: {T.show(t)[:150]}")
            kw = kwargs(t)
            if kw.get("axis", T.num(0)) != T.num(0):
                fail("the tables are put side by side")
            return sum(self.count(s[1], row) for s in xs[1])
        if t[0] == "mcall" and t[2] == "query":
            q = kwargs(t).get("", kwargs(t).get("expr"))
            if q is not None and q[0] == "str":
                return self.count(t[1], row) * self.query(q[1], t[1], row)
        if t[0] == "mcall" and t[2] in DROP and (self.count(t[1], row) or clear(t)):
            n = self.count(t[1], row)
            if n:
                fail(f"rows are left out: {t[2]}")
            return n
        if t[0] == "slice":
            b = t[1][1] if t[1][0] == "attr" and t[1][2] in ("iloc", "loc") else t[1]
            n = self.count(b, row)
            if t[2:4] in ((T.NONE, T.NONE), (T.num(0), T.NONE)) and t[4:] in ((), (T.NONE,), (T.num(1),), (T.num(-1),)):
                return n
            if n and all(x[0] in ("num", "none") for x in t[2:]):
                fail("rows are left out by their place in the table")
            if not n:
                return n
        if t[0] == "mcall" and t[2] == "drop_duplicates":
            sub = kwargs(t).get("subset", kwargs(t).get(""))
            if sub is not None and table(t[1]):
                names = {x[1] for x in subterms(sub) if x[0] == "str"}
                n = self.count(t[1], row)
                if "cp_activity_id" in names and "SimulationObject" not in names and not row["A"] and n:
                    fail("of an execution that several simulation objects recorded only one row is kept")
                if n == 1:
                    fail("of rows that agree in " + ", ".join(sorted(names)) + " only one is kept")
                if not n:
                    return n
            elif sub is None and table(t[1]):
                n = self.count(t[1], row)
                if n == 1:
                    fail("of rows that are equal (an object may record an execution twice) only one is kept")
                if not n:
                    return n
            undecided("removal of duplicates")
        undecided(f"the table {T.show(t)[:200]}")

    def mask(self, m, row):
        if m == ALL:
            return True
        if ("free", m) in row:
            return row["free", m]
        if m[0] == "bool":
            return m[1]
        if m[0] == "not" or m[0] == "op" and m[1] == "Invert":
            return not self.mask(m[1] if m[0] == "not" else m[2], row)
        if m[0] == "isnone" and any(column(m[1], x) is not None for x in ("SimulationObject", "is_critical", "cp_activity_id")):
            return False
        if m[0] == "truth":
            return self.mask(m[1], row)
        if m[0] == "mcall" and m[2] in ("apply", "map"):
            f = kwargs(m).get("", kwargs(m).get("func", kwargs(m).get("arg")))
            if f is not None and f[0] == "fun":
                return self.mask(T.replace(f[1], ("bv",), m[1]), row)
        if m[0] == "fun":
            undecided("rows selected by a function")
        if m[0] in ("list", "tuple") and len(m[1]) == 1 and m[1][0][0] == "each" and m[1][0][2][0] == "item" and not m[1][0][3]:
            return self.mask(T.replace(m[1][0][2][1], ("bv",), m[1][0][1]), row)
        if m[0] == "in":
            m = ("mcall", m[1], "isin", (("", m[2]),))
        if m[0] == "op" and m[1] == "Sub" and m[2:] and m[2] == T.num(1):
            return not self.mask(m[3], row)
        if m[0] == "op" and m[1] in ("BitAnd", "BitOr"):
            return (all if m[1] == "BitAnd" else any)([self.mask(x, row) for x in m[2:4]])
        if m[0] in ("and", "or"):
            xs = m[1] if len(m) == 2 and m[1] and isinstance(m[1][0], tuple) else m[1:]
            return (all if m[0] == "and" else any)([self.mask(x, row) for x in xs])
        if m[0] == "eq":
            for x, y in ((m[1], m[2]), (m[2], m[1])):
                if column(x, "SimulationObject") is not None and y == ("str", "Activity"):
                    return row["A"]
                if column(x, "is_critical") is not None and y[0] == "bool":
                    return row["C"] == y[1]
        if m[0] == "call" and m[1] in ("numpy.logical_and", "numpy.logical_or"):
            return (all if m[1].endswith("and") else any)([self.mask(x, row) for x in m[2]])
        if m[0] == "call" and m[1] == "numpy.logical_not":
            return not self.mask(m[2][0], row)
        if column(m, "is_critical") is not None:
            return row["C"]
        if m[0] == "mcall" and m[2] in ("eq", "ne") and column(m[1], "SimulationObject") is not None:
            y = kwargs(m).get("", kwargs(m).get("other"))
            if y == ("str", "Activity"):
                return row["A"] == (m[2] == "eq")
        if m[0] == "mcall" and m[2] == "isin":
            ids = kwargs(m).get("", kwargs(m).get("values"))
            if column(m[1], "SimulationObject") is not None and ids is not None and ids[0] in ("list", "tuple", "set") and all(
                    s[0] == "item" and s[1][0] == "str" for s in ids[1]):
                if {s[1][1] for s in ids[1]} == {"Activity"}:
                    return row["A"]
            for name in ("cp_activity_id",) + OTHER:
                if column(m[1], name) is None or ids is None:
                    continue
                if reported(ids):
                    if name != "cp_activity_id":
                        fail(f"the reported executions are looked up as {name}")
                    return row["C"]
                if name == "cp_activity_id" and clear(ids) and any(reported(x) for x in subterms(ids)):
                    if ids[0] == "slice":
                        fail(f"critical are only some of the executions that the graph reports: {T.show(ids)[-60:]}")
                src = self.source(ids, name)
                if src is None:
                    continue
                if name != "cp_activity_id":
                    fail(f"executions recorded by a simulation object are recognised by their {name}: other executions of the same "
                         "activity are confused with them")
                other = {k: v for k, v in row.items() if isinstance(k, tuple)}      # taken to agree on other columns
                if not row["A"] or row["D"]:
                    if self.count(src, {**other, "A": False, "C": row["C"], "D": False}):
                        return True
                if row["A"]:
                    return bool(self.count(src, row))
                if self.count(src, {**other, "A": True, "C": row["C"], "D": True}):
                    raise Free(m)       # whether an activity recorded it too
                return False
        if free(m):
            raise Free(m)
        undecided(f"rows selected by {T.show(m)[:200]}")

    def query(self, text, t, row):
        """A query as a selection of rows"""
        try:
            e = ast.parse(text.strip(), mode="eval").body
        except SyntaxError:
            undecided(f"the query {text[:60]}")

        def go(x):
            if isinstance(x, ast.BoolOp):
                return (all if isinstance(x.op, ast.And) else any)([go(y) for y in x.values])
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitAnd, ast.BitOr)):
                return (all if isinstance(x.op, ast.BitAnd) else any)([go(x.left), go(x.right)])
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.Invert)):
                return not go(x.operand)
            if isinstance(x, ast.Name):
                return self.mask(("attr", t, x.id), row)
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
                for a, b in ((x.left, x.comparators[0]), (x.comparators[0], x.left)):
                    if isinstance(a, ast.Name) and isinstance(b, ast.Constant) and isinstance(b.value, (str, bool)):
                        c = ("str", b.value) if isinstance(b.value, str) else ("bool", b.value)
                        return self.mask(T.eq(("attr", t, a.id), c), row) == isinstance(x.ops[0], ast.Eq)
            undecided(f"the query {text[:60]}")
        return go(e)

    def source(self, t, name):
        while True:
            if t[0] in ("list", "tuple", "set") and len(t[1]) == 1 and t[1][0][0] == "splat":
                t = t[1][0][1]
            elif t[0] == "call" and t[1] in ("set", "list") and t[2]:
                t = t[2][0]
            elif t[0] == "mcall" and t[2] in IDS:
                t = t[1]
            elif t[0] == "attr" and t[2] == "values":
                t = t[1]
            else:
                return column(t, name)


def run(ck):
    rows = Rows()
    classes = [q for q in ("DependenciesFromSimpy", "DependenciesFromModel", "DependenciesFromRecordedActivities")
               if ck.prog.find_class(q) is not None]

    def of(cls):
        def go():
            G = ck.graph(cls, "get_critical_path_df", opaque=OPAQUE, setup=lambda e: setattr(e, "lift", True))
            kept, n, results = {}, [0], []

            def step(s, e):
                called, made, col = s
                if e.kind == "call" and e.recv == SELF and e.name in ("get_recorded_activity_df", "get_dependency_list"):
                    return (called | {e.name}, made, col)
                if e.kind == "new" and e.name.endswith(".SimulationGraph"):
                    a = e.args
                    r, d = a.get("recorded_activities_df", a.get("0")), a.get("dependency_list", a.get("1"))
                    if r is None or d is None:
                        undecided("the graph", e)
                    if uncopied(r) and r[0] == "attr" and "get_recorded_activity_df" not in called:
                        fail("the graph is made before the recorded activities are", e)
                    b = r[1] if r[0] in ("copy", "mcall") else r
                    if not recorded(b) or r[0] == "mcall" and r[2] != "copy":
                        undecided(f"the graph is made of {T.show(r)[:100]}", e) if imprecise(r) and not table(r) else fail(
                            f"the graph is made of {T.show(r)[:150]}, not of the recorded activities", e)
                    if d == attr(SELF, "dependency_list"):
                        if "get_dependency_list" not in called:
                            fail("the graph is made before the dependencies are known", e)
                    elif not (d[0] == "res" and d[2] == "get_dependency_list" and d[3] == SELF):
                        undecided(f"the dependencies {T.show(d)[:100]}", e) if imprecise(d) and not any(
                            x == attr(SELF, "dependency_list") for x in subterms(d)) else fail(
                            f"the dependencies of the graph are {T.show(d)[:100]}", e)
                    return (called, True, col)
                if e.kind in ("setitem", "setattr") and e.recv is not None and table(e.recv):
                    key = e.args.get("key") if e.kind == "setitem" else ("str", e.name)
                    b = e.recv
                    if b[0] == "attr" and b[2] in ("loc", "at") and key is not None and key[0] == "tuple" and len(key[1]) == 2:
                        part, key, b = key[1][0][1], key[1][1][1], b[1]
                        if part != ALL and key[0] == "str":
                            if uncopied(b):
                                fail(f"the recorded activities themselves are changed ({key[1]})", e)
                            v = norm(e.val)
                            if key[1] in KEPT and clear(v) and clear(part):
                                fail(f"the column {key[1]} of some rows is changed", e)
                            if key[1] == "is_critical" and v[0] == "bool":
                                for row in ROWS:
                                    now = row["C"] if col else False
                                    new = {v[1] if x else now for x in rows.both(lambda r: rows.mask(norm(part), r), row)}
                                    if col and new != {row["C"]}:
                                        fail(f"is_critical is set to {v[1]} for some rows that are {'' if row['C'] else 'not '}critical", e)
                                if col:
                                    return s
                            undecided(f"the column {key[1]} of some rows", e)
                    if uncopied(b):
                        fail(f"the recorded activities themselves are changed ({T.show(key)[:40] if key else e.name})", e)
                    if key == ("str", "is_critical"):
                        while b[0] == "copy" or b[0] == "mcall" and (b[2] in SAME or b[2] in DROP or b[2] == "drop_duplicates"):
                            b = b[1]        # which rows there are is counted in the end
                        if not recorded(b):
                            undecided("the column is_critical of a part of the table", e)
                        v = norm(e.val)
                        ok = v[0] == "mcall" and v[2] == "isin" and column(v[1], "cp_activity_id") is not None
                        ids = kwargs(v).get("", kwargs(v).get("values")) if ok else None
                        if ok and ids is not None and reported(ids):
                            if not made:
                                undecided("the graph whose activities are reported", e)
                            return (called, made, True)
                        if v[0] == "mcall" and v[2] == "isin" and ids is None and reported(
                                kwargs(v).get("", kwargs(v).get("values", T.NONE))):
                            fail(f"the reported executions are looked up in {T.show(v[1])[:100]}", e)
                        if ids is not None and not imprecise(ids):
                            fail(f"critical are {T.show(ids)[:100]}, not the executions that the graph reports", e)
                        try:        # a negation and the like
                            for row in ROWS:
                                if rows.both(lambda r: rows.mask(v, r), row) != {row["C"]}:
                                    fail(f"is_critical is {T.show(v)[:150]}", e)
                        except RecursionError:
                            undecided("is_critical", e)
                        return (called, made, True)
                    if key is not None and key[0] == "str" and key[1] in KEPT:
                        fail(f"the column {key[1]} of the recorded activities is changed", e)
                if e.kind == "mutate" and e.recv is not None and table(e.recv):
                    undecided(f"{e.name} of the table", e)
                if e.kind == "setattr" and e.recv == SELF and e.name == "recorded_activities_df" and not recorded(norm(e.val)):
                    fail("the recorded activities are replaced", e) if e.val == T.NONE or not imprecise(e.val) or table(norm(
                        e.val)) or e.val[0] == "attr" and e.val[1] == SELF else undecided("the recorded activities", e)
                if e.kind == "setattr" and e.recv == SELF:
                    kept.setdefault(e.name, []).append((e.val, e, s))
                return s

            def at_exit(s, kind, v, st):
                if kind != "return":
                    return
                if v[0] == "attr" and v[1] == SELF and not recorded(v):
                    known = st.facts.get(("isnone", v)) is False
                    results.append(("kept", v[2], known))
                    return
                kept_at = [x for x in subterms(v) if x[0] == "attr" and x[1] == SELF and x[2] in ("critical_path_df",)]
                if kept_at and not any(recorded(x) for x in subterms(v)):
                    v = T.replace(v, kept_at[0], ("res", (), "get_recorded_activity_df", SELF, ()))
                    rest(norm(v))
                    return
                judge(v, s)
                results.append(("made", v))

            def rest(v):
                """What is left of the table that was made before"""
                for row in ROWS:
                    if row["A"] and (not row["C"] or row["D"]):
                        continue
                    if rows.both(lambda r: rows.count(v, r), row) != {1}:
                        fail(f"{say(row)} does not occur once in what is returned of the critical path table")
                results.append(("rest", v))

            def judge(v, s):
                v = norm(v)
                for row in ROWS:
                    want = 0 if row["A"] and (not row["C"] or row["D"]) else 1
                    cs = rows.both(lambda r: rows.count(v, r), row)
                    if cs != {want}:
                        c = sorted(cs - {want})[0]
                        fail(f"{say(row)} occurs {c} times in the critical path table, not {want} times")
                    n[0] += 1
                if not s[2]:
                    if any(x[0] == "mcall" and x[2] == "assign" for x in subterms(v)):
                        for x in subterms(v):
                            if x[0] == "mcall" and x[2] == "assign" and "is_critical" in kwargs(x):
                                m = kwargs(x)["is_critical"]
                                if m[0] == "fun":
                                    m = T.replace(m[1], ("bv",), x[1])
                                if not all(rows.both(lambda r: rows.mask(m, r), r) == {r["C"]} for r in ROWS):
                                    fail(f"is_critical is {T.show(m)[:150]}")
                                return
                    fail("the table has no column is_critical")
            ck.walk(G, (frozenset(), False, False), step, at_exit)
            for r in results:
                if r[0] == "kept":
                    if not r[2] and r[1] not in kept:
                        fail(f"self.{r[1]} is returned without having been made")
                    for v, e, s in kept.get(r[1], ()):
                        if v != T.NONE and v != attr(SELF, r[1]):
                            judge(v, s)
            if not n[0]:
                undecided("no critical path table")
            return {"rows": n[0], "exits": len(results)}
        return go
    for c in classes:
        ck.ob("critical path table", c, of(c))
    if not classes:
        undecided("no class")
