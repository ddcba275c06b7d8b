"""Typestate of the container events along every path of their three operations.

get_container_event: per operator (and for an unsupported one), the automaton tracks whether the entry for the request exists,
has fired, satisfies its comparison on this path, and was replaced or re-examined; the key must hold id, level and operator.
update_container_events: on every iteration the entry is fired exactly when its own comparison of its own container's level
holds and it has not fired, and no entry is skipped.  put/get: after the change of a level, on every path, the events are
re-examined, directly or by a callback of an event that is bound to be processed.
"""

import ast

import terms as T
from lib import SELF, fail, imprecise, subterms, undecided
from rules.c04 import reports
from rules.chain import is_fresh_event
from rules.store import CLS, PID, account_of, field, is_store

LEVEL = "other"
OPS = ("gt", "ge", "lt", "le")
LVL, OPR = ("param", "level"), ("param", "operator")
NOW = ("NOW",)


def strip(t):
    while t[0] == "stale":
        t = t[1]
    return t


def mapping(t):
    """Name of the event mapping when t is a mapping attribute of self."""
    return field(t)


def entry(t, key, M):
    t = strip(t)
    return t[0] == "key" and t[2] == key and mapping(t[1]) == M


def holds(a, v, op, lvl, level):
    """What the fact (a is v) says about `level-now op level`: True / False / None."""
    if a[0] == "lt0":
        p = T.replace(a[1], lvl, NOW)
        if p == T.sub(level, NOW):          # now > level
            return {"gt": v, "le": not v}.get(op, True if v and op == "ge" else False if v and op == "lt" else None)
        if p == T.sub(NOW, level):          # now < level
            return {"lt": v, "ge": not v}.get(op, True if v and op == "le" else False if v and op == "gt" else None)
    if a[0] == "opcmp" or a[0] == "truth" and a[1][0] == "opcmp":
        c = a if a[0] == "opcmp" else a[1]
        if strip(c[2]) == lvl and strip(c[3]) == level:
            return v
    return None


def level_obs(t, who):
    """The current level of container `who` in the term."""
    for u in subterms(t):
        if u[0] == "obs" and u[2] == "get_level":
            if u[3] == SELF and dict(u[4]).get("id_") == who:
                return u
    return None


def key_of(ck):
    """(name of the event mapping, key term)"""
    G = ck.graph(CLS, "get_container_event", {"operator": ("str", "ge")})
    found = set()
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind == "setitem" and mapping(e.recv) and is_fresh_event(e.val):
                found.add((mapping(e.recv), e.arg("key")))
    if len(found) > 1:
        ks = {k for _, k in found}
        if len(ks) > 1:
            fail("events are stored under different keys: " + " / ".join(sorted(T.show(k) for k in ks)))
    if not found:
        undecided("where container events are kept")
    return next(iter(found))


def request_key(ck):
    M, k = key_of(ck)
    k2 = T.replace(k, ("str", "ge"), OPR)
    if k2[0] not in ("tuple",):
        undecided(f"key of the events: {T.show(k)}") if imprecise(k) else None
    have = {u for u in subterms(k2)}
    for what, p in (("container id", PID), ("level", LVL), ("operator", OPR)):
        if p not in have:
            undecided(f"key of the events: {T.show(k)}") if imprecise(k) else fail(
                f"requests that differ only in the {what} share an event (key {T.show(k)})")
    if k2[0] == "tuple":
        items = [s[1] for s in k2[1]]
        for what, p in (("container id", PID), ("level", LVL), ("operator", OPR)):
            if p not in items:
                if any(p in subterms(i) and imprecise(i) for i in items):
                    undecided(f"key of the events: {T.show(k)}")
                fail(f"requests with different {what} can share an event (key {T.show(k)})")
    elif k2[0] != "tuple":
        undecided(f"key of the events: {T.show(k)}")
    return 1


def asked(ck, op):
    M, k = key_of(ck)
    K = T.replace(k, ("str", "ge"), ("str", op))
    G = ck.graph(CLS, "get_container_event", {"operator": ("str", op)})
    n = [0]

    # (entry exists, condition holds, fired, replaced by this event, re-examined since, event fired here)
    def step(s, e):
        has, ok, fired, new, upd = s
        if e.kind == "assume":
            a, v = e.recv, e.val == T.TRUE
            if a[0] == "in" and mapping(a[2]) == M:
                if a[1] != K:
                    fail(f"looks for the entry {T.show(a[1])}, stores under {T.show(K)}", e) if not imprecise(a[1]) \
                        else undecided("the entry looked for", e)
                if new is None:
                    return (v,) + s[1:]
                return s
            if a[0] == "isnone" and entry(a[1], K, M):
                return ((not v) if has is None else has,) + s[1:] if not (has and v) else None
            if a[0] == "truth" and entry(a[1], K, M):
                return s if v else None
            if a[0] == "truth" and a[1][0] == "vol" and a[1][3] in ("triggered", "processed", "ok") and \
                    entry(a[1][2], K, M) and new is None:
                if a[1][3] == "processed" and not v:
                    return s
                if upd and fired is not None and fired != v:
                    return s
                return (has, ok, v, new, upd)
            lvl = level_obs(a, PID)
            if lvl is None and any(u[0] == "obs" and u[2] == "get_level" for u in subterms(a)):
                fail(f"compares another container's level: {T.show(a)}", e)
            if lvl is not None:
                h = holds(a, v, op, lvl, LVL)
                if h is not None:
                    if ok is not None and ok != h:
                        return None
                    return (has, h, fired, new, upd)
            return s
        if e.kind == "setitem" and mapping(e.recv) == M:
            if e.arg("key") != K:
                fail(f"stores the event under {T.show(e.arg('key'))}", e)
            if not is_fresh_event(e.val):
                undecided("the stored event", e) if imprecise(e.val) else fail(
                    f"stores {T.show(e.val)[:80]} as event", e)
            n[0] += 1
            if has is not False and fired is not True and new is None:
                fail("an event that has not fired, for which others may wait, is replaced", e)
            return (True, ok, False, e.val, False)
        if e.kind in ("delitem", "pop", "mutate") and e.recv is not None and mapping(e.recv) == M:
            undecided("change of the event mapping", e)
        if e.kind == "call" and e.name == "update_container_events" and e.recv == SELF:
            return (has, ok, fired, new, True)
        if e.kind == "call" and e.name == "succeed":
            r = strip(e.recv)
            if entry(r, K, M) or r == new:
                if ok is not True:
                    fail("the event is fired although its condition need not hold", e)
                if fired is not False:
                    undecided("whether the event fired before", e) if new is None and fired is None else fail(
                        "the event is fired twice", e)
                return (has, ok, True, new, True)
            undecided("which event fires", e)
        return s

    def at_exit(s, kind, v, st):
        has, ok, fired, new, upd = s
        if kind != "return":
            return
        n[0] += 1
        r = strip(v)
        if not (entry(r, K, M) or new is not None and r == new):
            if new is not None and r[0] == "key" or imprecise(r):
                undecided(f"the returned event {T.show(v)[:100]}")
            fail(f"returns {T.show(v)[:150]}, not the event of this request")
        if new is None:
            if has is False:
                fail("no event is made for a new request")
            if not (ok is True or fired is False):
                fail(f"an event that has fired is handed out again although its condition ({op}) may no longer hold")
        if not upd and not (ok is False) and not (new is None and fired is True):
            fail("an event whose condition holds is handed out without firing")
    ck.walk(G, (None, None, None, None, False), step, at_exit)
    return n[0]


def rejects(ck):
    G = ck.graph(CLS, "get_container_event")
    n = [0]

    def step(s, e):
        if e.kind == "assume" and e.recv[0] == "eq" and OPR in e.recv[1:]:
            o = e.recv[2] if e.recv[1] == OPR else e.recv[1]
            if e.val == T.TRUE and o[0] == "str":
                n[0] += 1
                return o[1]
        if e.kind == "assume" and e.recv[0] == "in" and e.recv[1] == OPR and e.val == T.TRUE:
            return "in:" + T.show(e.recv[2])
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        if s == "":
            fail("an unsupported operator is accepted")
        if s.startswith("in:"):
            undecided("the supported operators")
        if s not in OPS:
            fail(f"operator {s!r} is accepted")
    ck.walk(G, "", step, at_exit)
    return n[0] or undecided("how the operator is checked")


def updates(ck):
    M, k = key_of(ck)
    K = T.replace(k, ("str", "ge"), OPR)
    if K[0] != "tuple":
        undecided("key of the events")
    pos = {s[1]: i for i, s in enumerate(K[1])}
    G = ck.graph(CLS, "update_container_events")
    n = [0]

    def parts(at):
        return [strip_key(at, pos[p]) for p in (PID, LVL, OPR)]

    def strip_key(at, i):
        return ("key", at, T.num(i))

    def at_of(t):
        return next((u for u in subterms(t) if u[0] == "at" and mapping(strip(u[1])) == M), None)

    def src(t):
        return t is not None and mapping(strip(t)) == M

    # (inside an iteration, holds, fired, fired here, all seen, operator of the entry)
    def step(s, e):
        cur, ok, fired, here, seen, op = s
        if e.kind == "iter" and src(e.recv):
            return (True, None, None, False, False, None)
        if e.kind in ("back", "exhaust", "break") and (src(e.recv) or e.kind == "break"):
            if cur:
                if e.kind != "break" or True:
                    done(s, e)
            if e.kind == "break":
                fail("the remaining events are not examined", e)
            return (False, None, None, False, e.kind == "exhaust", None)
        if e.kind == "assume":
            a, v = e.recv, e.val == T.TRUE
            at = at_of(a)
            if at is None:
                return s
            i, l, o = parts(at)
            if a[0] == "truth" and a[1][0] == "vol" and a[1][3] in ("triggered", "processed"):
                if strip(a[1][2]) == ("key", at[1], at) or at_of(a[1][2]) == at and strip(a[1][2])[0] in ("key", "attr"):
                    if a[1][3] == "processed" and not v:
                        return s
                    return (cur, ok, v, here, seen, op)
                return s
            if a[0] == "eq" and o in a[1:] and any(x[0] == "str" for x in a[1:]):
                x = a[1] if a[2] == o else a[2]
                if v:
                    return (cur, ok, fired, here, seen, x[1])
                left = tuple(z for z in (op if isinstance(op, tuple) else OPS) if z != x[1]) if not isinstance(op, str) \
                    else op
                return (cur, ok, fired, here, seen, left[0] if len(left) == 1 and isinstance(left, tuple) else left)
            b = T.replace(a, ("stale",), ("stale",))
            lvl = level_obs(b, i)
            c = a if a[0] == "opcmp" else a[1] if a[0] == "truth" and a[1][0] == "opcmp" else None
            if c is not None:
                if c[1] != o:
                    undecided("the operator of an entry", e) if imprecise(c[1]) else fail(
                        f"compares with {T.show(c[1])}, not with the operator of the entry", e)
                if lvl is None or c[2] != lvl or c[3] != l:
                    if imprecise(c[2]) or imprecise(c[3]):
                        undecided("the comparison of an entry", e)
                    fail(f"compares {T.show(c[2])} with {T.show(c[3])}; the entry asks for {T.show(i)} against "
                         f"{T.show(l)}", e)
                return (cur, v, fired, here, seen, op)
            if lvl is not None and a[0] == "lt0":
                if not isinstance(op, str):
                    if ok is not None:
                        return s
                    undecided("the operator of an entry", e)
                h = holds(a, v, op, lvl, l)
                if h is not None:
                    return (cur, h, fired, here, seen, op)
            return s
        if e.kind == "call" and e.name in ("succeed", "trigger", "fail"):
            at = at_of(e.recv)
            if at is None:
                undecided("which event fires", e)
            n[0] += 1
            if here or fired is True:
                fail("an event is fired twice", e)
            if ok is not True:
                fail("an event is fired although its condition need not hold", e)
            if fired is None:
                fail("an event is fired without checking whether it fired before", e)
            return (cur, ok, fired, True, seen, op)
        if e.kind in ("setitem", "delitem", "pop") and mapping(e.recv) == M:
            fail("the events are replaced or removed", e)
        return s

    def done(s, e=None):
        cur, ok, fired, here, seen, op = s
        if here or fired is True or ok is False:
            return
        if isinstance(op, str) and ok is None:
            undecided("the comparison of an entry", e)
        fail("an event whose condition holds may stay unfired", e)

    def at_exit(s, kind, v, st):
        if kind == "return" and not s[4]:
            if s[0]:
                fail("the remaining events are not examined")
            fail("the events are not examined")
    ck.walk(G, (False, None, None, False, False, None), step, at_exit)
    return n[0] or undecided("how events are fired")


def callback_updates(ck, G, f):
    """Does calling f re-examine the events on every path?  True / False / None"""
    if f[0] == "partial":
        return callback_updates(ck, G, f[1])
    if f[0] == "bound" and f[1] == SELF:
        fn = ck.prog.classes[f[3]].methods[f[2]]
        if fn.name == "update_container_events":
            return False        # does not take the event
        H = ck.graph(f[3], fn.name)
    elif f[0] == "closure":
        fn = G.engine.closures[f[1]]
        if isinstance(fn.node, ast.Lambda):
            b = fn.node.body
            return isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and \
                b.func.attr == "update_container_events" or None
        return None
    else:
        return None
    ok = [True]

    def step(s, e):
        return s or e.kind == "call" and e.name == "update_container_events"

    def at_exit(s, kind, v, st):
        if kind == "return" and not s:
            ok[0] = False
    ck.walk(H, False, step, at_exit)
    return ok[0]


def reexamined(ck, name):
    G = ck.graph(CLS, name)
    n = [0]

    def scheduled(t, fired):
        """Is the event t bound to be processed now?"""
        if t[0] == "res" and t[2] == "put" and is_store(t[3]):
            return True
        if t[0] == "res" and t[2] == "timeout":
            return dict(t[4]).get("delay") == T.num(0)
        if t[0] == "res" and t[2] == "event":
            return t in fired
        if t[0] == "res" and t[2] == "succeed":
            return True
        return None

    # (a level changed and not re-examined, account out of the store, callbacks registered, events fired)
    def step(s, e):
        due, out, cbs, fired = s
        if e.kind == "setitem" and e.arg("key") == ("str", "level"):
            n[0] += 1
            return (True, out, cbs, fired)
        if e.kind == "mutate" and e.name == "update" and account_of(e.recv, PID, e.facts):
            n[0] += 1
            return (True, out, cbs, fired)
        if e.kind == "super" and is_store(e.recv):
            if e.name == "get":
                return (due, True, cbs, fired)
            if e.name == "put":
                return (due, False, cbs, fired)
        if e.kind == "call" and e.name == "update_container_events" and e.recv == SELF:
            if due and out:
                fail("the events are examined while the account is out of the store", e)
            return (False, out, cbs, fired)
        if e.kind == "call" and e.name == "succeed":
            return (due, out, cbs, fired + (strip(e.recv),))
        if e.kind == "mutate" and e.recv[0] in ("vol", "attr") and (e.recv[3] if e.recv[0] == "vol" else e.recv[2]) == \
                "callbacks":
            if e.name not in ("append", "insert"):
                undecided("the callbacks", e)
            ev = e.recv[2] if e.recv[0] == "vol" else e.recv[1]
            f = e.arg("0") if e.name == "append" else e.arg("1")
            r = callback_updates(ck, G, f)
            if r is None:
                undecided(f"the callback {T.show(f)[:80]}", e)
            if r is False:
                fail(f"the callback {T.show(f)[:80]} does not re-examine the events on every path", e)
            return (due, out, cbs + (ev,), fired)
        return s

    def at_exit(s, kind, v, st):
        due, out, cbs, fired = s
        if kind != "return" or not due:
            return
        oks = [scheduled(c, fired) for c in cbs]
        if True in oks:
            return
        if None in oks:
            undecided("whether the callback runs")
        fail("the level changes without the events being re-examined")
    ck.walk(G, (False, False, (), ()), step, at_exit)
    return n[0] or undecided(f"how {name} changes a level")


def special(ck, name, op):
    G = ck.graph(CLS, name)
    n = 0
    for _, kind, v, st in G.exits:
        if kind != "return":
            continue
        n += 1
        if v is None or v[0] != "res" or v[2] != "get_container_event":
            undecided(f"what {name} returns") if v is None or imprecise(v) else fail(f"returns {T.show(v)[:150]}")
        a = dict(v[4])
        lv = strip(a.get("level", T.NONE))
        if op == "ge":
            ok = lv[0] == "obs" and lv[2] == "get_capacity" and lv[3] == SELF and dict(lv[4]).get("id_") == PID
        else:
            ok = lv == T.num(0)
        if not ok:
            undecided("the level", None) if imprecise(lv) else fail(
                f"{name} waits for level {op} {T.show(lv)[:120]}")
        if a.get("operator") != ("str", op):
            fail(f"{name} waits for operator {T.show(a.get('operator', T.NONE))}, expected {op}")
        if a.get("id_") != PID:
            fail(f"{name} watches container {T.show(a.get('id_', T.NONE))}, not the given one")
    return n or fail(f"{name} returns nothing")


def run(ck):
    ck.ob("requests do not share events", "key", lambda: request_key(ck))
    ck.ob("level query", "get_level", lambda: reports(ck, "get_level", "level"))
    ck.ob("capacity query", "get_capacity", lambda: reports(ck, "get_capacity", "capacity"))
    for op in OPS:
        ck.ob("event asked for", op, lambda: asked(ck, op))
    ck.ob("unsupported operators", "get_container_event", lambda: rejects(ck))
    ck.ob("events fire with their condition", "update_container_events", lambda: updates(ck))
    for m in ("put", "get"):
        ck.ob("re-examined after a change", m, lambda: reexamined(ck, m))
    ck.ob("empty event", "get_empty_event", lambda: special(ck, "get_empty_event", "le"))
    ck.ob("full event", "get_full_event", lambda: special(ck, "get_full_event", "ge"))
