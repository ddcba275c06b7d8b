"""Value analysis of logbook entries on every path, and effect analysis of everything that touches a logbook.

log_entry_v1: on every path that returns, exactly one entry is appended to the object's own logbook; its five fields are the
given id, the name of the given state, the given label (or an empty one), the UTC time of exactly the given timestamp and the
object's state, extended by the additional state when there is one; a path that raises appends nothing.  The public view is
a chain of row- and order-preserving operations on the logbook that drops no documented column.  Every function of the
package that mentions a logbook is analysed: none but the constructor and the two log methods may change one.
"""

import ast

import terms as T
from engine import TooBig
from lib import SELF, expect, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["a mapping is equal to itself after storing it in a list", "documented behaviour of pandas.DataFrame methods"]
COLUMNS = ("Timestamp", "ActivityID", "ActivityState", "ObjectState", "ActivityLabel")
ADD, LABEL = ("param", "additional_state"), ("param", "activity_label")
TIME = ("param", "t")


def is_logbook(t, of=None):
    while t is not None and t[0] == "stale":
        t = t[1]
    if t is None:
        return False
    if t[0] == "vol" and t[3] == "logbook":
        return of is None or t[2] == of
    return t[0] == "attr" and t[2] == "logbook" and (of is None or t[1] == of)


def in_logbook(t):
    """Does the term denote a logbook or something inside one?"""
    while isinstance(t, tuple) and t:
        if is_logbook(t):
            return True
        if t[0] in ("key", "elem", "stale", "first", "last", "item") and len(t) > 1:
            t = t[1]
        else:
            return False
    return False


def utc(t):
    """True / message / None: is the term the UTC time of the timestamp?"""
    def kw(c):
        return dict(c[3]) if len(c) > 3 and c[3] else {}
    UTC = (("attr", ("global", "datetime.timezone"), "utc"), ("global", "datetime.timezone.utc"), ("global", "datetime.UTC"))

    def is_utc(z):
        return z in UTC or "utc" in T.show(z).lower()
    if t[0] == "call" and t[1].endswith("utcfromtimestamp"):
        a = t[2][0] if t[2] else kw(t).get("t")
        return True if a == TIME else None if imprecise(a) else f"the time of {T.show(a)}"
    if t[0] == "mcall" and t[2] == "replace" and dict(t[3]).get("tzinfo") == T.NONE and len(t[3]) == 1:
        c = t[1]
        if c[0] == "call" and c[1].endswith("fromtimestamp"):
            a, z = c[2][0] if c[2] else None, kw(c).get("tz") or (c[2][1] if len(c[2]) > 1 else None)
            if z is None:
                return "the local time of the timestamp"
            if not is_utc(z):
                return None
            return True if a == TIME else None if imprecise(a) else f"the time of {T.show(a)}"
    if t[0] == "call" and t[1].endswith(".fromtimestamp") and len(t[2]) == 1 and not kw(t):
        return "the local time of the timestamp"
    if t[0] == "poly":
        tds = [u for u in subterms(t) if u[0] == "call" and u[1].endswith("timedelta")]
        if len(tds) == 1 and tds[0][2] == () and kw(tds[0]) == {"seconds": TIME}:
            epoch = T.sub(t, tds[0])
            if epoch[0] == "call" and epoch[1].endswith("datetime") and epoch[2] == tuple(T.num(x) for x in (1970, 1, 1)):
                return True
    if not T.mentions(t, TIME) and not imprecise(t):
        return f"{T.show(t)}, which does not depend on the timestamp"
    return None


def state_parts(t):
    """(own state?, extended by additional?) of an ObjectState term."""
    def own(x):
        return x[0] == "obs" and x[2] == "get_state" and x[3] == SELF
    if own(t):
        return True, False
    if t[0] == "dict" and t[1] and all(s[0] == "splat" for s in t[1]):
        parts = [s[1] for s in t[1]]
        if own(parts[0]):
            rest = [p for p in parts[1:] if p != ("dict", ())]
            if rest == [ADD]:
                return True, True
            if not rest:
                return True, False
        elif ADD in parts and any(own(p) for p in parts[parts.index(ADD):]):
            return "reversed"
        elif all(p == ADD for p in parts):
            return "missing"
    return None


def entry(ck):
    G = ck.graph("Log", "log_entry_v1")
    n = [0]

    def step(s, e):
        upd, seen, count, truth, none, lnone, ltruth = s
        if e.kind == "assume":
            a, v = e.recv, e.val == ("bool", True)
            if a == ("truth", ADD):
                truth = v
            elif a == ("isnone", ADD):
                none = v
            elif a == ("isnone", LABEL):
                lnone = v
            elif a == ("truth", LABEL):
                ltruth = v
        elif e.kind == "observe" and any(u[0] == "obs" and u[2] == "get_state" for u in (e.res, e.val, e.recv) if u):
            seen = min(seen + 1, 2)
        elif e.kind == "mutate" and e.name == "update" and e.recv[0] == "obs" and e.recv[2] == "get_state":
            expect(e.arg("0"), ADD, "what the logged state is extended with", e)
            upd = True
        elif e.kind in ("mutate", "setitem", "delitem", "pop", "setattr"):
            if e.kind == "mutate" and e.name == "append" and is_logbook(e.recv, SELF):
                n[0] += 1
                check_entry(s, e)
                count = min(count + 1, 2)
            elif e.kind == "setattr" and e.name == "logbook" or in_logbook(e.recv):
                fail(f"the logbook is changed by {e.name or e.kind}", e)
            elif T.mentions(e.recv, ADD) or T.mentions(e.recv, LABEL) or e.kind == "setitem" and e.recv[0] == "obs":
                fail("changes a mapping the caller passed in or the object's state", e) if e.recv in (ADD, LABEL) else \
                    undecided("changes a part of the entry", e)
        return upd, seen, count, truth, none, lnone, ltruth

    def check_entry(s, e):
        upd, seen, count, truth, none, lnone, ltruth = s
        x = e.arg("0")
        if x[0] != "dict" or any(i[0] != "kv" or i[1][0] != "str" for i in x[1]):
            undecided(f"entry is {T.show(x)[:100]}", e)
        f = {i[1][1]: i[2] for i in x[1]}
        for c in COLUMNS:
            if c not in f:
                fail(f"the entry has no {c}", e)
        extra = set(f) - set(COLUMNS)
        if extra:
            fail(f"the entry has an undocumented field {sorted(extra)[0]}", e)
        expect(f["ActivityID"], ("param", "activity_id"), "the activity id of the entry", e)
        expect(f["ActivityState"], ("attr", ("param", "activity_state"), "name"), "the state of the entry", e)
        r = utc(f["Timestamp"])
        if r is None:
            undecided(f"timestamp {T.show(f['Timestamp'])[:120]}", e)
        if r is not True:
            fail(f"the timestamp of the entry is {r}, expected the UTC time of the given one", e)
        lab = f["ActivityLabel"]
        if lab == ("dict", ()):
            if not (lnone is True or ltruth is False):
                fail("the given label is not recorded", e)
        elif lab == LABEL:
            if lnone is True:
                fail("an entry without label gets None instead of an empty label", e)
        else:
            expect(lab, LABEL, "the label of the entry", e)
        p = state_parts(f["ObjectState"])
        if p == "missing":
            fail("the entry has the additional state only, not the object's state", e)
        if p == "reversed":
            fail("the object's own state replaces the additional state, expected the additional state to extend it", e)
        if p is None:
            undecided(f"object state {T.show(f['ObjectState'])[:120]}", e) if imprecise(f["ObjectState"]) or any(
                u[0] == "splat" for u in subterms(f["ObjectState"])) else fail(
                f"the logged state is {T.show(f['ObjectState'])[:120]}, expected the object's state", e)
        if upd and seen > 1:
            undecided("the state is asked for more than once", e)
        ext = upd or p[1]
        if not ext and truth is not False and none is not True:
            fail("the additional state is not part of the entry", e)
        return 1

    def at_exit(s, kind, v, st):
        if kind == "return" and s[2] != 1:
            fail(f"{'no entry is' if s[2] == 0 else 'more than one entry is'} written on a path that returns")
        if kind == "raise" and s[2]:
            fail("an entry is written although the call fails")
    # an update after the append extends the same mapping; the check at the append asks for it before
    ck.walk(G, (False, 0, 0, None, None, None, None), step, at_exit)
    return n[0]


FORBIDDEN = {"drop_duplicates", "sort_values", "sort_index", "head", "tail", "query", "sample", "groupby", "nlargest",
             "nsmallest", "truncate", "iloc", "loc", "bfill", "ffill", "interpolate", "shift"}
HARMLESS = {"copy", "reset_index", "convert_dtypes", "infer_objects"}


def literal_set(t):
    if t[0] in ("set", "list", "tuple") and all(i[0] == "item" and i[1][0] == "str" for i in t[1]):
        return {i[1][1] for i in t[1]}
    if t[0] == "call" and t[1] in ("set", "frozenset", "list", "tuple") and len(t[2]) == 1:
        return literal_set(t[2][0])
    return None


def frame(t):
    """Check a chain of frame operations down to the logbook: True, a message, or None (unknown)."""
    while t[0] in ("stale", "copy"):
        t = t[1]
    if t[0] == "call" and t[1] in ("pandas.DataFrame", "pandas.DataFrame.from_records"):
        if not t[2]:
            return None
        src = t[2][0]
        kw = dict(t[3])
        cols = literal_set(kw["columns"]) if "columns" in kw else set(COLUMNS)
        if cols is None or set(kw) - {"columns"}:
            return None
        if set(COLUMNS) - cols:
            return f"leaves out the column {sorted(set(COLUMNS) - cols)[0]}"
        while src[0] == "call" and src[1] in ("list", "tuple") and len(src[2]) == 1:
            src = src[2][0]
        if src[0] == "list" and len(src[1]) == 1 and src[1][0][0] == "splat":
            src = src[1][0][1]
        if is_logbook(src, SELF):
            return True
        if src[0] == "filter" and is_logbook(src[1], SELF):
            return "leaves out entries that do not meet a condition"
        if src[0] == "slice" and is_logbook(src[1], SELF):
            return "shows a part of the logbook only"
        if src[0] == "call" and src[1] in ("sorted", "reversed"):
            return "shows the entries in another order"
        return None
    if t[0] == "mcall":
        base, name, kw = t[1], t[2], dict(t[3])
        r = frame(base)
        if r is not True:
            return r
        if name in FORBIDDEN:
            return f"applies {name}() to the entries"
        if name == "dropna":
            how = kw.get("how")
            if set(kw) - {"how", "axis"} or kw.get("axis", T.num(0)) not in (T.num(0), ("str", "index")):
                return None
            return True if how == ("str", "all") else "leaves out entries in which one field is None"
        if name == "drop":
            x = kw.get("columns")
            if x is None or set(kw) != {"columns"}:
                return "drops entries" if x is None and ("index" in kw or "labels" in kw or "" in kw or "0" in kw) and \
                    kw.get("axis") not in (T.num(1), ("str", "columns")) else None
            s = literal_set(x)
            if s is not None:
                return f"drops the column {sorted(s & set(COLUMNS))[0]}" if s & set(COLUMNS) else True
            if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each" and x[1][0][2] == ("item", ("bv",)) and len(x[1][0]) > 3:
                bv = ("bv",)
                miss = {c for c in COLUMNS if ("not", T.eq(bv, ("str", c))) not in x[1][0][3]
                        and ("not", ("eq", bv, ("str", c))) not in x[1][0][3]}
                if any(imprecise(c) for c in x[1][0][3]):
                    return None
                return f"drops the column {sorted(miss)[0]}" if miss else True
            known = [literal_set(u) for u in subterms(x) if literal_set(u)]
            if x[0] == "poly" and len(known) >= 1:
                miss = set(COLUMNS) - set().union(*known)
                return f"drops the column {sorted(miss)[0]}" if miss else True
            return None
        return True if name in HARMLESS else None
    if t[0] == "key":
        s = literal_set(t[2])
        r = frame(t[1])
        if r is not True:
            return r
        if s is not None:
            return f"leaves out the column {sorted(set(COLUMNS) - s)[0]}" if set(COLUMNS) - s else True
        return None
    return None


def times(t, F):
    """Is t the list of the Timestamp column of the frame as Python datetimes, in order?"""
    if t[0] == "call" and t[1] in ("pandas.Series", "list", "numpy.array") and t[2]:
        return times(t[2][0], F)
    if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "each":
        src, body = t[1][0][1], t[1][0][2]
        if any(u[0] in ("slice", "filter") for u in subterms(src)):
            return False
        ok = any(u[0] == "key" and u[2] == ("str", "Timestamp") and u[1] == F for u in subterms(src))
        return ok and body[0] == "item" and body[1][0] == "mcall" and body[1][2] == "to_pydatetime"
    return t[0] == "list" and t[1] == ()


def view(ck):
    G = ck.graph("Log", "log")
    n = 0
    sets = {}
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind == "setitem":
                sets.setdefault(e.recv, []).append(e)
    for node, kind, v, st in G.exits:
        if kind != "return":
            continue
        n += 1
        empty = ("truth", ("vol", "S0", SELF, "logbook"))
        F = v
        if v is not None and v[0] == "mcall" and v[2] == "to_dict":
            if dict(v[3]).get("orient", dict(v[3]).get("")) != ("str", "list"):
                fail("the view is not a mapping of columns to lists")
            F = v[1]
        else:
            undecided(f"the view is {T.show(v)[:120]}")
        if F[0] == "call" and F[1] == "pandas.DataFrame" and F[2] and F[2][0][0] == "dict":
            keys = {i[1][1] for i in F[2][0][1] if i[0] == "kv" and i[1][0] == "str"}
            if set(COLUMNS) - keys:
                fail(f"the view of an empty logbook has no column {sorted(set(COLUMNS) - keys)[0]}")
            if st.facts.get(empty):
                fail("the view is empty although there are entries")
            continue
        r = frame(F)
        if r is None:
            undecided(f"the view is {T.show(F)[:160]}")
        if r is not True:
            fail(f"the log view {r}")
        for e in sets.get(F, ()):
            c = e.arg("key")
            if c == ("str", "Timestamp"):
                if not times(e.val, F):
                    undecided(f"timestamps {T.show(e.val)[:120]}", e)
            elif c[0] == "str" and c[1] in COLUMNS:
                undecided(f"column {c[1]} is set", e) if imprecise(e.val) else fail(f"the column {c[1]} is replaced", e)
    return n


def mentions_logbook(fn):
    return any(isinstance(x, ast.Attribute) and x.attr == "logbook" or isinstance(x, ast.Constant) and x.value == "logbook"
               for x in ast.walk(fn.node))


def is_own(ck, fn):
    return fn.name in ("log_entry_v1", "log_entry_v0", "__init__") and fn.cls is not None and any(
        q.endswith(".Log") for q in ck.prog.mro(fn.cls.qual))


def is_init(ck, fn):
    return fn.name == "__init__" and is_own(ck, fn)


def helper(ck, fn, seen=(), own=is_own):
    """Is the function used by the log methods only, so that its effects are part of theirs?"""
    users = [g for g in ck.prog.all_functions() if g is not fn and any(
        isinstance(x, ast.Attribute) and x.attr == fn.name or isinstance(x, ast.Name) and x.id == fn.name
        or isinstance(x, ast.Constant) and x.value == fn.name for x in ast.walk(g.node))]
    return fn.name.startswith("_") and bool(users) and all(
        own(ck, g) or g.qual not in seen and helper(ck, g, seen + (fn.qual,), own) for g in users)


def writers(ck):
    n = 0
    for fn in ck.prog.all_functions():
        if not mentions_logbook(fn):
            continue
        n += 1
        cls = fn.cls.qual if getattr(fn, "cls", None) else None
        name = fn.name
        own = is_own(ck, fn)
        try:
            G = ck.graph(None, None, fn=fn, self_type=cls)
        except TooBig:
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Attribute) and x.attr == "logbook" and not isinstance(x.ctx, ast.Load):
                    fail(f"{fn.qual}, line {x.lineno}: replaces the logbook")
            raise
        for o in G.out:
            for e, _ in o:
                if e is None:
                    continue
                if e.kind == "setattr" and e.name == "logbook":
                    if not (own and name == "__init__") and not helper(ck, fn, own=is_init):
                        fail(f"{fn.qual} replaces the logbook", e)
                    expect(e.val, ("list", ()), "the initial logbook", e)
                elif e.kind in ("mutate", "setitem", "delitem", "pop") and in_logbook(e.recv):
                    if own and e.kind == "mutate" and e.name == "append" and is_logbook(e.recv, SELF):
                        continue
                    if not own and helper(ck, fn):
                        continue
                    fail(f"{fn.qual} changes a logbook ({e.name or e.kind})", e)
                elif e.kind == "call" and any(is_logbook(x) for x in e.args.values() if isinstance(x, tuple)):
                    undecided(f"{fn.qual} passes a logbook to {e.name}", e)
    if not n:
        undecided("no function mentions a logbook")
    return n


def run(ck):
    ck.ob("entry", "Log.log_entry_v1", lambda: entry(ck))
    ck.ob("view", "Log.log", lambda: view(ck))
    ck.ob("writers of logbooks", "package", lambda: writers(ck))
