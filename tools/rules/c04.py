"""Effect and value analysis of every access to the accounts of a container.

put and get: on every path that returns, exactly one store to a level, of the account selected by exactly the given id, of
old level plus / minus the given amount, and an account taken out of the store is put back once, after the change; nothing
else is stored.  get_level / get_capacity return that field of the account with the id, or 0 only on branches where none has
it.  initialize_container stores, per initial, a fresh content and a fresh reservation account.  A who-may-write scan over
the whole package shows that no other code changes an account.
"""

import ast

import terms as T
from lib import SELF, attr, d, fail, imprecise, subterms, undecided
from rules.store import (BV, CLS, PID, SUFFIX, account_of, field, is_items, is_store, lists_by, no_match, same_id)

LEVEL = "other"
ASSUMPTIONS = ["container ids are unique within a container", "the number of initials does not exceed store_capacity"]
AMOUNT = ("param", "amount")


def changes(ck, name, sign):
    G = ck.graph(CLS, name)
    n = [0]

    # state: accounts out of the store, levels changed, (matching element seen but not changed yet)
    def step(s, e):
        out, done, due = s
        if e.kind == "super" and is_store(e.recv):
            if e.name == "get":
                p = e.arg("0")
                if p is None or p[0] != "pred":
                    undecided("the account taken out of the store", e)
                if p[1][0] == "and" and same_id(BV, PID) in p[1]:
                    c = next(c for c in p[1][1:] if c != same_id(BV, PID))
                    fail(f"takes the account with the given id only when {T.show(c)[:100]}", e)
                if p[1] != same_id(BV, PID):
                    undecided("the account taken out of the store", e) if imprecise(p[1]) else fail(
                        f"takes the account with {T.show(p[1])}, not the one with the given id", e)
                return (out + (("res", e.res, done),), done, due)
            if e.name == "put":
                x = e.arg("0") or e.arg("item")
                if x is None:
                    undecided("what is put into the store", e)
                for k, o in enumerate(out):
                    if x[0] == "vol" and x[2] == o[1]:
                        if done == o[2]:
                            fail("the account goes back into the store before its level is changed", e)
                        return (out[:k] + out[k + 1:], done, due)
                if x[0] == "dict" and len(out) == 1 and all(i[0] == "kv" and i[1][0] == "str" for i in x[1]):
                    new = {i[1][1]: i[2] for i in x[1]}
                    cap = new.get("capacity")
                    if set(new) != {"id", "capacity", "level"}:
                        fail(f"the account put back has the fields {sorted(new)}", e)
                    if cap[0] == "obs" and cap[2] == "get_capacity" and cap[3] == SELF:
                        fail("the capacity is asked for while the account is not in the store", e)
                undecided("what is put into the store", e) if imprecise(x) or account_of(x, PID, e.facts) is None else \
                    fail(f"{T.show(x)[:100]} is put into the store", e)
        if e.kind in ("setitem", "setattr", "mutate", "delitem"):
            r = e.recv
            a = account_of(r, PID, e.facts)
            if a is None and (r[0] == "at" and is_items(r[1])):
                a = False
            if a is None:
                if is_items(r) and e.kind != "setattr" or e.kind == "setattr" and e.name == "items":
                    undecided("direct change of the stored accounts", e)
                return s
            if a is False:
                fail(f"changes {T.show(r)[:100]}, which is not the account with the given id", e)
            k = e.arg("key") if e.kind == "setitem" else None
            val = e.val
            if e.kind == "mutate" and e.name == "update" and len(e.args) == 1:
                x = next(iter(e.args.values()))
                if x[0] == "dict" and len(x[1]) == 1 and x[1][0][0] == "kv":
                    k, val = x[1][0][1:]
                elif list(e.args) == ["level"]:
                    k, val = ("str", "level"), x
            if k != ("str", "level"):
                undecided("change of the account", e) if k is None or imprecise(k) else fail(
                    f"changes the account's {T.show(k)}", e)
            n[0] += 1
            if done:
                fail("the level is changed twice", e)
            old = [u for u in subterms(val) if u[0] == "key" and u[2] == k and u[1] == r]
            want = (T.sub if sign < 0 else T.add)(("key", r, k), AMOUNT)
            lvl = [T.replace(want, {("key", r, k): u}) for u in subterms(val)
                   if u[0] == "obs" and u[2] == "get_level" and dict(u[4]).get("id_") == PID and u[3] == SELF]
            if val not in [want] + lvl:
                undecided("the new level", e) if imprecise(val) else fail(
                    f"the level becomes {T.show(val)[:200]}, expected {T.show(want)[:200]}", e)
            return (out, True, None)
        if e.kind == "assume":
            a = e.recv
            for u in subterms(a):
                if u[0] == "at" and is_items(u[1]) and a == same_id(u, PID):
                    return (out, done, u if e.val == T.TRUE and not done else due)
        return s

    def at_exit(s, kind, v, st):
        out, done, due = s
        if kind != "return":
            return
        if out:
            fail("the account taken out of the store is not put back")
        if due is not None:
            fail(f"the level is not changed")
        if not done and not any(e is not None and e.kind in ("loop", "iter") for o in G.out for e, _ in o):
            fail("the level is not changed")
    ck.walk(G, ((), False, None), step, at_exit)
    return n[0] or fail(f"{name} never changes a level")


def reports(ck, name, key):
    G = ck.graph(CLS, name, opaque=())
    n = 0
    for node, kind, v, st in G.exits:
        if kind != "return":
            continue
        n += 1
        if v == T.num(0):
            if not no_match(st.facts, PID):
                if any(imprecise(a) or a[0] not in ("isnone", "lt0", "eq0", "exists", "truth", "in", "eq")
                       for a in st.facts):
                    undecided("when 0 is reported")
                if any(e is not None and e.kind == "iter" for o in G.out for e, _ in o) and not any(
                        subterms(a) and any(is_items(u) for u in subterms(a)) for a in st.facts):
                    undecided("when 0 is reported")
                fail("0 is reported although an account with the id may exist")
            continue
        if v is not None and v[0] == "dget" and v[3] == T.num(0) and v[2] == PID and v[1][0] == "dict" and len(v[1][1]) == 1 \
                and v[1][1][0][0] == "each" and is_items(v[1][1][0][1]) and v[1][1][0][2:] == (
                    ("kv", ("key", BV, ("str", "id")), ("key", BV, ("str", key))), ()):
            continue
        if v is not None and v[0] == "dget" and v[3] == T.num(0) and v[2] == ("str", key) and v[1][:2] == ("call", "next") \
                and len(v[1][2]) == 2 and lists_by(v[1][2][0], PID) and v[1][2][0][1][0][2] == ("item", BV) and \
                v[1][2][1] == ("dict", ()):
            continue
        if v is not None and v[0] == "key" and v[2] == ("str", key):
            a = account_of(v[1], PID, st.facts)
            if a is True:
                continue
            if a is None:
                undecided(f"what is reported: {T.show(v)[:100]}")
            fail(f"reports the {key} of {T.show(v[1])[:100]}, not of the account with the given id")
        if v is not None and v[0] in ("key", "first", "next", "call") and any(
                lists_by(u, PID) for u in subterms(v)) and T.mentions(v, ("str", key)):
            L = next(u for u in subterms(v) if lists_by(u, PID))
            if L[0] == "list" and L[1][0][2] == ("item", ("key", BV, ("str", key))) and (
                    v == ("key", L, T.num(0)) or v[:2] == ("call", "next") and v[2] == (L, T.num(0))):
                continue
        undecided(f"what is reported: {T.show(v)[:100]}") if v is None or imprecise(v) else fail(
            f"{name} returns {T.show(v)[:200]}")
    return n or fail(f"{name} returns nothing")


def initial_accounts(ck):
    G = ck.graph(CLS, "initialize_container")
    src = ("param", [p[0] for p in G.entry.params()][1])
    n = [0]

    # state: current initial, accounts stored for it, complete
    def step(s, e):
        cur, got = s
        if e.kind == "iter" and e.recv == src:
            return (True, ())
        if e.kind in ("back", "exhaust") and e.recv == src:
            if cur and set(got) != {"content", "reservation"}:
                fail(f"an initial container gets no {' and no '.join(sorted({'content', 'reservation'} - set(got)))}"
                     " account", e)
            return (False, ())
        if e.kind == "break" and cur is not None:
            fail("the remaining initial containers are skipped", e)
        if (e.kind == "super" and is_store(e.recv)) and e.name == "put":
            x = e.arg("0") or e.arg("item")
            it = next((u for u in subterms(x) if u[0] == "at" and u[1] == src), None)
            if it is None:
                undecided("the stored account", e) if imprecise(x) else fail(
                    f"stores {T.show(x)[:150]}", e)
            if x == it:
                fail("stores the user's own mapping, so that two containers made from it share their level", e)
            if x[0] == "dict":
                x = T.replace(x, ("fstr", (("key", it, ("str", "id")),)), ("key", it, ("str", "id")))
            i, c, l = (("key", it, ("str", k)) for k in ("id", "capacity", "level"))
            for what, ident in (("content", i), ("reservation", ("fstr", (i, ("str", SUFFIX))))):
                if x == d(("id", ident), ("capacity", c), ("level", l)) or what == "content" and x == ("copy", it):
                    n[0] += 1
                    if what in got:
                        fail(f"an initial container gets two {what} accounts", e)
                    return (cur, got + (what,))
            undecided("the stored account", e) if imprecise(x) or x[0] == "copy" else fail(
                f"stores {T.show(x)[:250]}", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and s[0] is None and not any(T.mentions(a, src) for a in st.facts):
            fail("the initial containers are not stored")
        if kind == "return" and s[0] is True:
            fail("the remaining initial containers are skipped")
    ck.walk(G, (None, ()), step, at_exit)
    return n[0] or undecided("how the initial containers are stored")


def listing(ck):
    c = ck.prog.find_class(CLS)
    G = ck.graph(CLS, "container_list")
    n = 0
    for _, kind, v, st in G.exits:
        if kind != "return":
            continue
        n += 1
        if v is not None and v[0] == "call" and v[1] in ("list", "sorted") and v[2]:
            v = v[2][0]
        if v[0] in ("list", "set", "tuple") and len(v[1]) == 1 and v[1][0][0] == "each" and v[1][0][1][0] == "slice" and \
                is_items(v[1][0][1][1]):
            fail(f"lists {T.show(v)[:250]}")
        if v[0] in ("list", "set", "tuple") and len(v[1]) == 1 and v[1][0][0] == "each" and is_items(v[1][0][1]):
            _, X, seg, conds = v[1][0]
            i = ("key", BV, ("str", "id"))
            res = ("truth", ("mcall", i, "endswith", (("", ("str", SUFFIX)),)))
            if seg == ("item", i) and tuple(conds) == (("not", res),):
                continue
            if not imprecise(v) or all(c[0] in ("not", "truth", "eq", "in") for c in conds):
                fail(f"lists {T.show(v)[:250]}")
        if v in (("list", ()),) and any(a[0] == "truth" and is_items(a[1]) and not w for a, w in st.facts.items()):
            continue
        undecided(f"the container list: {T.show(v)[:150]}")
    return n or fail("container_list returns nothing")


def composed(ck, cls):
    """The constructors hand the accounts over as given."""
    G = ck.graph(cls, "__init__")
    n = [0]
    multi = "initials" in [p[0] for p in G.entry.params()]

    def step(s, e):
        if e.kind == "new" and e.name.endswith("." + CLS):
            sc = e.arg("store_capacity")
            if sc != ("param", "store_capacity"):
                undecided("store_capacity", e) if sc is None or imprecise(sc) else fail(
                    f"the store is made for {T.show(sc)} containers, not the given number", e)
            n[0] += 1
            return (e.res, s[1])
        if e.kind == "call" and e.name == "initialize_container":
            x = next(iter(e.args.values()), None)
            n[0] += 1
            if s[1]:
                fail("the container is initialised twice", e)
            if multi:
                if x != ("param", "initials"):
                    undecided("the initial containers", e) if imprecise(x) else fail(
                        f"is initialised with {T.show(x)[:150]}", e)
            else:
                want = d(("id", ("str", "default")), ("capacity", ("param", "capacity")), ("level", ("param", "level")))
                if x != ("list", (("item", want),)) and x != ("tuple", (("item", want),)):
                    undecided("the initial container", e) if imprecise(x) else fail(
                        f"is initialised with {T.show(x)[:250]}", e)
            return (s[0], True)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return" or s[1]:
            return
        if not multi:
            cap = ("param", "capacity")
            if st.facts.get(T.lt0(T.neg(cap))) is False or st.facts.get(T.eq0(cap)) is True \
                    or st.facts.get(T.isnone(cap)) is True or st.facts.get(T.truth(cap)) is False:
                return
        fail("the container is not initialised")
    ck.walk(G, (None, False), step, at_exit)
    return n[0] or fail("no container is made")


def room(ck):
    """The store has room for the content and the reservation account of every container."""
    G = ck.graph(CLS, "__init__")
    n = [0]

    def step(s, e):
        if e.kind == "super" and e.name == "__init__":
            c = e.arg("capacity") or e.arg("1")
            n[0] += 1
            if c is None or c in (("call", "float", (("str", "inf"),), ()), T.NONE):
                return True
            more = T.sub(c, T.mul(T.num(2), ("param", "store_capacity")))
            if more[0] == "num" and more[1] >= 0:
                return True
            if more[0] == "poly" and all(k >= 0 for _, k in more[1]):
                return True
            undecided("the room in the store", e) if imprecise(c) else fail(
                f"the store has room for {T.show(c)} accounts; every container needs two", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s:
            fail("the store is not set up")
    ck.walk(G, False, step, at_exit)
    return n[0]


def defaults(ck):
    n = 0
    for m in ("put", "get", "get_level", "get_capacity", "get_container_event", "get_empty_event", "get_full_event"):
        f = ck.prog.find_method(CLS, m)
        if f is None:
            fail(f"{m} is gone")
        ps = {p[0]: p[1] for p in f.params()}
        if "id_" not in ps:
            undecided(f"parameters of {m}")
        v = ps["id_"]
        n += 1
        if v is None:
            continue
        if not (isinstance(v, ast.Constant) and v.value == "default"):
            if isinstance(v, ast.Constant):
                fail(f"without id, {m} uses container {v.value!r}, not 'default'")
            undecided(f"default id of {m}")
    return n


def who_writes(ck):
    """No code outside put/get/initialize_container changes an account or the store."""
    n = 0
    root = ck.prog.find_class(CLS).qual
    for f in ck.prog.all_functions():
        inside = f.cls is not None and root in ck.prog.mro(f.cls.qual)
        stored = set()      # names that hold an account
        for x in ast.walk(f.node):
            if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and isinstance(
                    x.iter, ast.Attribute) and x.iter.attr == "items":
                stored.add(x.target.id)
        for x in ast.walk(f.node):
            ts = []
            if isinstance(x, ast.Assign):
                ts = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                ts = [x.target]
            elif isinstance(x, ast.Delete):
                ts = x.targets
            for t in ts:
                n += 1
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value in (
                        "level", "capacity") and not inside:
                    b = ast.unparse(t.value)
                    if ".items" in b or "container" in b or b in stored:
                        fail(f"{f.qual}:{x.lineno} changes {ast.unparse(t)}, bypassing put and get")
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    b = t.value if isinstance(t, ast.Subscript) else t
                    if isinstance(b, ast.Attribute) and b.attr == "items" and (
                            inside or "container" in ast.unparse(b)):
                        fail(f"{f.qual}:{x.lineno} replaces {ast.unparse(t)} directly")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                n += 1
                b = x.func.value
                if isinstance(b, ast.Attribute) and b.attr == "items" and x.func.attr in (
                        "append", "remove", "pop", "clear", "insert", "extend", "sort", "reverse") and (
                        inside or "container" in ast.unparse(b)):
                    if not inside:
                        fail(f"{f.qual}:{x.lineno} changes {ast.unparse(b)} directly")
                    undecided(f"{f.qual}:{x.lineno} changes {ast.unparse(b)} directly")
    # within the class: who stores a level
    own = {m: f for q, c in ck.prog.classes.items() if not q.startswith("composite.") and root in ck.prog.mro(q)
           for m, f in c.methods.items()}
    allowed = {"put", "get", "initialize_container", "__init__"}
    grown = True
    while grown:
        grown = False
        for m, f in own.items():
            uses = [(g, x) for g in ck.prog.all_functions() for x in ast.walk(g.node)
                    if isinstance(x, ast.Attribute) and x.attr == m]
            if m not in allowed and m.startswith("_") and uses and all(g.name in allowed and g.name in own and any(
                    isinstance(y, ast.Call) and y.func is x for y in ast.walk(g.node)) for g, x in uses):
                allowed.add(m)
                grown = True
    for m, f in own.items():
        for x in ast.walk(f.node):
            if m not in allowed and isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(
                    x.slice, ast.Constant) and x.slice.value in ("level", "capacity"):
                fail(f"{f.qual}:{x.lineno} changes {ast.unparse(x)} outside put and get")
    # within the class: which methods use the store
    for q, c in sorted(ck.prog.classes.items()):
        if q.startswith("composite.") or root not in ck.prog.mro(q):
            continue
        for m, f in c.methods.items():
            if m in ("put", "get", "initialize_container", "__init__") and q == root:
                continue
            if not any(isinstance(x, ast.Call) or isinstance(x, (ast.Assign, ast.AugAssign)) for x in ast.walk(f.node)):
                continue
            reached = f.name.startswith("_")
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("put", "get") and \
                        isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and \
                        x.func.value.func.id == "super" and not reached:
                    fail(f"{f.qual}:{x.lineno} changes the store outside put and get")
                n += 1
    return n


def run(ck):
    ck.ob("put adds", "put", lambda: changes(ck, "put", 1))
    ck.ob("get subtracts", "get", lambda: changes(ck, "get", -1))
    ck.ob("level query", "get_level", lambda: reports(ck, "get_level", "level"))
    ck.ob("capacity query", "get_capacity", lambda: reports(ck, "get_capacity", "capacity"))
    ck.ob("initial accounts", "initialize_container", lambda: initial_accounts(ck))
    ck.ob("container list", "container_list", lambda: listing(ck))
    ck.ob("room in the store", "__init__", lambda: room(ck))
    for c in ("HasContainer", "HasMultiContainer"):
        ck.ob("composition", c, lambda: composed(ck, c))
    ck.ob("default container", "signatures", lambda: defaults(ck))
    ck.ob("nobody else changes accounts", "package", lambda: who_writes(ck))
