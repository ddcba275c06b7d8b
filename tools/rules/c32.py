"""Structural induction over the recursive flattening: every column as a symbolic list, compared with its recurrence.

On every path each column is, in this order, one entry per given activity, in their order (itself, its id, name, class, the depth, no
parent), followed by, for each given activity with sub-processes, the same column of the recursive result for its sub-processes at
depth + 1 - for the parent columns with the first len(sub-processes) entries, which by induction belong to the direct children,
replaced by the activity's own id or name.  All columns thus follow one recurrence, so rows stay aligned at every depth.
"""

import ast

import terms as T
from lib import AnalysisBroken, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
TREE, DEPTH = ("param", "treelist"), ("param", "depth")
COLS = ("ActivityID", "ActivityName", "ActivityClass", "ParentId", "ParentName", "ParentLevel", "activity")
PURE = {"type", "str", "len", "max", "min", "set", "sorted", "list", "tuple", "dict.fromkeys", "zip", "enumerate", "range", "isinstance",
        "abs", "int", "bool"}
TEXT = {"strip", "lower", "upper", "title", "replace", "split", "join", "lstrip", "rstrip", "capitalize", "format", "__getitem__"}


def base(col, x):
    """The accepted entries of a given activity x."""
    return {
        "activity": [x],
        "ActivityID": [attr(x, "id")],
        "ActivityName": [attr(x, "name")],
        "ActivityClass": [attr(("call", "type", (x,), ()), "__name__"), attr(attr(x, "__class__"), "__name__")],
        "ParentId": [T.NONE],
        "ParentName": [("str", ""), T.NONE],
        "ParentLevel": [DEPTH],
    }[col]


def foreign(t):
    """Does the term hold something whose meaning is not known?"""
    if imprecise(t):
        return True
    for x in subterms(t):
        if x[0] in ("vol", "at", "sym", "unk", "stale"):
            return True
        if x[0] == "call" and x[1] not in PURE or x[0] == "mcall" and x[2] not in TEXT | {"values", "keys", "items", "index", "count"}:
            return True
        if x[0] == "call" and x[1] == "str" and x not in [y[1] for y in subterms(t) if y[0] == "slice"] and x[2] and x[2][0][0] == "attr":
            return True         # of an id that is text already
    return False


def below(c, x):
    """Is the condition one that all activities with sub-processes satisfy, and only those?"""
    sub = attr(x, "sub_processes")
    return c in (("hasattr", x, "sub_processes"), ("not", T.isnone(sub)), T.truth(sub), ("truth", sub), T.lt0(T.neg(("len", sub))),
                 ("not", T.eq0(("len", sub))), ("lt0", T.neg(("len", sub))))


def recursion(t, x, name):
    """Is t the recursive result for x's sub-processes one level down?"""
    if t[0] == "res" and t[2] == name:
        a = dict(t[4])
        return a.get("treelist") == attr(x, "sub_processes") and a.get("depth") == T.add(DEPTH, T.num(1))
    return False


def flat(content):
    return list(content[1]) if content[0] == "many" else [content]


def children(col, segs, x, y, name):
    """Do the segments append the rows below x?  (x as seen outside, y inside a nested each)"""
    def whole(s):
        return s[0] == "splat" and s[1][0] == "key" and s[1][2] == ("str", col) and recursion(s[1][1], x, name)
    if col not in ("ParentId", "ParentName"):
        return len(segs) == 1 and whole(segs[0])
    if len(segs) != 2:
        return False
    own, rest = segs
    field = "id" if col == "ParentId" else "name"
    sub = attr(x, "sub_processes")
    if own[0] != "each" or own[1] != sub or own[3] != () or own[2] != ("item", attr(y, field)):
        return False
    if rest[0] != "splat" or rest[1][0] != "slice":
        return False
    _, src, lo, hi, st = rest[1][:5] if len(rest[1]) >= 5 else rest[1] + (T.NONE,)
    return src[0] == "key" and src[2] == ("str", col) and recursion(src[1], x, name) and lo == ("len", sub) and (
        hi == T.NONE and st in (T.NONE, T.num(1)))


def column(col, t, facts, name):
    """None if the column follows its recurrence, else a description of what does not."""
    if t[0] not in ("list", "tuple"):
        return "is not a list"
    segs = list(t[1])
    is_list, is_dict = facts.get(("isinstance", TREE, "list")), facts.get(("isinstance", TREE, "dict"))
    if is_dict and is_list is not True:
        src = ("iterator", "values", TREE)
    elif is_list or any(s[0] in ("each", "splat") and s[1] == TREE for s in segs):
        src = TREE
    else:
        src = None
    b = ("bv",)
    if is_dict and src is not None and any(s[0] == "each" and s[1] == TREE for s in segs):
        # the values looked up by the keys
        def values(t):
            for v in (b, ("bv", 1)):
                t = T.replace(t, ("key", TREE, v), v)
            return t
        segs = [("each", src) + values(s[2:]) if s[0] == "each" and s[1] == TREE else s for s in segs]
    if src is not None:
        if not segs:
            return None if facts.get(T.truth(src)) is False else "is empty"
        s = segs[0]
        if not (s[0] == "splat" and s[1] == src and col == "activity" or s[0] == "each" and s[1] == src and s[3] == () and s[
                2] in [("item", v) for v in base(col, b)]):
            return f"starts with {show(s)}, not with one entry per given activity"
        if len(segs) == 1 and facts.get(T.truth(src)) is False:
            return None
        if len(segs) != 2 or segs[1][0] != "each" or segs[1][1] != src:
            return "does not go on with the rows below each given activity"
        if not segs[1][3] or not all(below(c, b) for c in segs[1][3]):
            odd = [c for c in segs[1][3] if not below(c, b)]
            if odd and not any(x[0] in ("junk", "unk", "vol", "at", "sym", "call", "mcall") for c in odd for x in subterms(c)):
                fail(f"the column {col} has no rows below an activity unless {T.show(odd[0])[:200]}")
            return f"adds the rows below those activities where {' and '.join(T.show(c) for c in segs[1][3]) or 'anything'} holds"
        if not children(col, flat(segs[1][2]), b, ("bv", 1), name):
            return f"adds {show(segs[1][2])} below each given activity"
        return None
    if not segs or segs[0] not in [("item", v) for v in base(col, TREE)]:
        return f"starts with {show(segs[0]) if segs else 'nothing'}, not with the given activity's entry"
    h = facts.get(("hasattr", TREE, "sub_processes"))
    sub = attr(TREE, "sub_processes")
    if facts.get(T.isnone(sub)) is True or facts.get(T.truth(sub)) is False or facts.get(T.eq0(("len", sub))) is True:
        return None if len(segs) == 1 or children(col, segs[1:], TREE, TREE, name) else "has rows below an activity without sub-processes"
    if h is False:
        return None if len(segs) == 1 else "has rows below an activity without sub-processes"
    if h is None:
        return "does not depend on whether the activity has sub-processes"
    if not children(col, segs[1:], TREE, TREE, name):
        return f"adds {show(('many', tuple(segs[1:])))} below the given activity"
    return None


def show(s):
    return T.show(s)[:250] if s[0] not in ("many", "each", "splat", "item") else T.show(("list", (s,) if s[0] != "many" else s[1]))[:250]


def tree(ck):
    fs = [f for f in ck.prog.all_functions() if f.name == "get_tree_as_list" and f.cls is None]
    if not fs:
        raise AnalysisBroken("get_tree_as_list not found")
    G = ck.graph(None, None, fn=fs[0])
    n = [0]

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        while v[0] == "copy":
            v = v[1]
        if v[0] != "dict" or any(x[0] != "kv" for x in v[1]):
            undecided("the result is not a literal dictionary")
        cols = {x[1][1]: x[2] for x in v[1] if x[1][0] == "str"}
        for c in COLS:
            if c in cols and cols[c][0] in ("sorted", "reversed", "set") and len({t[0] for t in cols.values()}) > 1:
                fail(f"the rows of the column {c} are in another order than those of other columns: {T.show(cols[c])[:150]}")
            if c not in cols:
                fail(f"the column {c} is missing")
            r = column(c, cols[c], st.facts, fs[0].name)
            if r is not None:
                undecided(f"column {c}: {r}") if foreign(cols[c]) else fail(f"the column {c} {r}")
            n[0] += 1
    ck.walk(G, (), lambda s, e: s, at_exit)
    return n[0]


def top(ck):
    """Top-level activities have depth 0 unless told otherwise."""
    f = [f for f in ck.prog.all_functions() if f.name == "get_tree_as_list" and f.cls is None][0]
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    ds.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = ds.get("depth")
    if v is None:
        fail("the depth of the top-level activities must be given")
    if not (isinstance(v, ast.Constant) and v.value == 0):
        if not isinstance(v, ast.Constant):
            undecided("the depth of the top-level activities")
        fail(f"the depth of the top-level activities is {v.value}")
    return 1


LESS = {"drop_duplicates", "head", "tail", "dropna", "query", "sample", "nlargest", "nsmallest", "groupby", "explode", "merge", "iloc"}


def exported(ck):
    """The exported list of activities has the rows of the tree."""
    f = [f for f in ck.prog.all_functions() if f.name == "get_activities" and f.cls is None]
    if not f:
        raise AnalysisBroken("get_activities not found")
    G = ck.graph(None, None, fn=f[0], opaque=("get_tree_as_list",))
    n = [0]

    def rows(t):
        while True:
            if t[0] == "res" and t[2] == "get_tree_as_list":
                a = dict(t[4])
                if a.get("treelist", a.get("0")) != ("param", "activities"):
                    undecided("the exported activities") if imprecise(t) else fail(f"exports {T.show(t)[:150]}")
                if a.get("depth", T.num(0)) != T.num(0):
                    fail(f"exports the tree from depth {T.show(a['depth'])[:80]}")
                return
            if t[0] in ("copy", "stale"):
                t = t[1]
            elif t[0] == "call" and t[1].endswith("DataFrame") and t[2]:
                t = t[2][0]
            elif t[0] in ("mcall", "res") and t[2] in LESS:
                fail(f"the exported rows are selected by {t[2]}")
            elif t[0] == "mcall" and t[2] in ("copy", "reset_index", "astype", "sort_index", "infer_objects", "assign", "fillna", "rename",
                                              "sort_values", "drop", "convert_dtypes", "set_index", "reindex"):
                t = t[1]
            elif t[0] == "slice" or t[0] == "key" and (t[2][0] in ("eq", "not", "in", "lt0", "eq0", "isnone", "op")):
                fail(f"only some of the rows are exported: {T.show(t[2])[:120]}")
            elif t[0] == "key":
                t = t[1]        # a selection of columns
            else:
                undecided(f"the exported rows: {T.show(t)[:150]}")

    def at_exit(s, kind, v, st):
        if kind == "return":
            n[0] += 1
            rows(v)
    ck.walk(G, (), lambda s, e: s, at_exit)
    return n[0]


def run(ck):
    ck.ob("every column follows the tree", "get_tree_as_list", lambda: tree(ck))
    ck.ob("the tree starts at depth 0", "get_tree_as_list", lambda: top(ck))
    ck.ob("one exported row per row of the tree", "get_activities", lambda: exported(ck))
