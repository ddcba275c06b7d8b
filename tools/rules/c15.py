"""Closure terms of the sub-process list and typestate of the registration passes.

The list of activities to register is the given ones plus, by a work list or recursion, the sub-processes of every
element.  No registration happens before a branch that found the names distinct.  In every pass an element is only
registered on paths that found it not registered yet, counts as registered only after its registration returned, and
the function returns only on branches that leave no element unregistered; a pass never ends by an unhandled failure of
a single registration, the remaining exits raise.  The given list is not changed.
"""

import types

import terms as T
from lib import attr, fail, imprecise, subterms, undecided
from model import AnalysisBroken
from rules.common import known_empty, root_source

LEVEL = "other"
ASSUMPTIONS = ["names are the identity of activities: distinct names are checked by the function itself"]
BV = ("bv",)
ENOUGH = 20


def function(ck, name):
    fs = [f for f in ck.prog.functions.values() if f.name == name and f.cls is None]
    if not fs:
        raise AnalysisBroken(f"{name} not found")
    return fs[0]


def is_subs(t, x):
    """x.sub_processes, or [] where there are none."""
    return t == attr(x, "sub_processes") or (t[0] == "call" and t[1] == "getattr" and len(t[2]) >= 2 and t[2][0] == x
                                             and t[2][1] == ("str", "sub_processes"))


def has_conds(conds, x):
    return all(c in (("hasattr", x, "sub_processes"), ("truth", attr(x, "sub_processes")),
                     T.bnot(T.isnone(attr(x, "sub_processes")))) for c in conds)


def closure(ck):
    f = function(ck, "get_subprocesses")
    G = ck.graph(None, None, fn=f)
    P = ("param", f.params()[0][0])
    n = [0]

    def step(q, e):
        if e.kind == "mutate" and root_source(e.recv) == P or e.kind in ("setitem", "delitem") and e.recv == P:
            fail("the given list itself is changed", e)
        if e.kind == "pop" and e.val is not None and e.val[0] in ("key", "at") and e.val[1] == P:
            fail("the given list itself is changed", e)
        return q

    def at_exit(q, kind, v, s):
        if kind != "return":
            return
        n[0] += 1
        islist = s.facts.get(("isinstance", P, "list"))
        if v == P:
            fail("the given list is returned without the nested activities")
        if v[0] not in ("list", "tuple") or imprecise(v):
            undecided(f"the collected activities {T.show(v)[:160]}")
        segs = list(v[1])
        bases = [("splat", P)] if islist else [("item", P)] if islist is False else [("splat", P), ("item", P)]
        base = [b for b in bases if b in segs]
        rec = [g for g in segs if g[0] == "each"]
        if not base:
            both = [g for g in rec if g[1] == P and g[2][0] == "many" and ("item", BV) in g[2][1] and not g[3]]
            if both:
                inner = [x for x in both[0][2][1] if x != ("item", BV)]
                if len(inner) == 1 and recursive(inner[0]):
                    return
                undecided("the collected activities")
            fail("the given activities themselves are not among those collected")
        if len(base) > 1 or any(segs.count(b) > 1 for b in bases):
            fail("the given activities are collected twice")
        start = ("list", (base[0],))
        if not rec:
            splat = [g for g in segs if g[0] == "splat" and is_subs(g[1], P)]
            if known_empty(s.facts, P) and islist:
                return
            fail("nested activities are not collected" if not splat else
                 "only the direct sub-processes of the given activity are collected")
        if len(rec) > 1:
            undecided("the collected activities")
        _, X, seg, conds = rec[0]
        if not has_conds(conds, BV):
            if imprecise(("x", conds)):
                undecided("which nested activities are collected")
            fail(f"nested activities are collected only if {' and '.join(T.show(c) for c in conds)[:200]}")
        if recursive(seg):
            if X in (P, start):
                return
            undecided("the collected activities")
        if X in (P, start) and seg[0] == "splat" and is_subs(seg[1], BV):
            fail("only one level of nested activities is collected")
        if X[0] == "grow" and X[1] in (start, P) and seg[0] == "splat" and is_subs(seg[1], BV):
            return
        undecided("the collected activities")

    ck.walk(G, 0, step, at_exit)
    return n[0]


def recursive(seg):
    if seg[0] == "splat" and seg[1][0] == "res" and seg[1][2] == "get_subprocesses":
        a = list(dict(seg[1][4]).values())
        return bool(a) and is_subs(a[0], BV)
    return False


def names_of(t, I):
    """Is t a collection of the names of the elements of I?"""
    return t[0] in ("list", "set", "tuple") and len(t[1]) == 1 and t[1][0] == ("each", I, ("item", attr(BV, "name")), ())


def distinct_names(facts, I):
    """Do the facts say that the names in I are distinct?  True / None"""
    sizes = [("len", I), ("len", ("list", (("each", I, ("item", attr(BV, "name")), ()),)))]
    uniq = [("len", ("set", (("each", I, ("item", attr(BV, "name")), ()),)))]
    for a in sizes:
        for b in uniq:
            if facts.get(T.eq(a, b)) is True:
                return True
            for dd in (T.sub(a, b), T.sub(b, a)):
                if facts.get(T.eq0(dd)) is True or facts.get(T.lt0(T.sub(b, a))) is False:
                    return True
    return None


def not_registered(facts, x):
    """Local collections that the facts say x is not in."""
    out = set()
    for a, v in facts.items():
        if v is False and a[0] == "exists" and a[1][0] in ("list", "set"):
            for eqv in (T.eq(attr(x, "name"), attr(BV, "name")), T.eq(x, BV), T.eq(attr(x, "id"), attr(BV, "id"))):
                if a[2] == eqv:
                    out |= {s[2:] for s in a[1][1] if s[0] in ("sofar", "junk")}
        if v is False and a[0] == "in" and a[1] in (x, attr(x, "name"), attr(x, "id")):
            t = a[2]
            for u in subterms(t):
                if u[0] in ("sofar", "junk"):
                    out.add(u[2:])
    return out


def all_registered(facts, I):
    if known_empty(facts, I):
        return True
    for a, v in facts.items():
        if v is False and a[0] == "truth" and a[1][0] in ("list", "set", "tuple") and len(a[1][1]) == 1:
            g = a[1][1][0]
            if g[0] == "each" and g[1] == I and g[2] in (("item", BV), ("item", attr(BV, "name"))) and len(g[3]) == 1:
                if unregistered_cond(g[3][0]):
                    return True
        if v is False and a[0] == "truth" and a[1][0] == "filter" and a[1][1] == I and len(a[1][2]) == 1 and \
                unregistered_cond(a[1][2][0]):
            return True
        if v is False and a[0] == "exists" and a[1] == I and unregistered_cond(a[2]):
            return True
        if v is True and a[0] == "eq" and ("len", I) in a[1:] and any(
                x[0] == "len" and x[1][0] in ("list", "set") and len(x[1][1]) == 1 and x[1][1][0][0] == "sofar"
                for x in a[1:]):
            return True
        if v is False and a[0] == "lt0" and T.mentions(a, ("len", I)):
            ls = [t for t in subterms(a) if t[0] == "len" and t != ("len", I) and _has_sofar(t)]
            if len(ls) == 1 and a == T.lt0(T.sub(ls[0], ("len", I))):
                return True
        if v is True and a[0] == "eq0":
            ts = subterms(a[1])
            lens = {t[1] for t in ts if t[0] == "len"}
            if len(lens) == 1:
                x = next(iter(lens))
                if x[0] in ("list", "set") and len(x[1]) == 1 and x[1][0][0] == "each" and x[1][0][1] == I and \
                        len(x[1][0][3]) == 1 and unregistered_cond(x[1][0][3][0]):
                    return True
            if len(lens) == 2 and ("len", I) in ts and T.sub(("len", I), a[1]) != a[1]:
                o = next(x for x in lens if x != I)
                if _has_sofar(o) and a[1] in (T.sub(("len", I), ("len", o)), T.sub(("len", o), ("len", I))):
                    return True
    return False


def _has_sofar(t):
    return any(u[0] in ("sofar", "junk") for u in subterms(t))


def unregistered_cond(c):
    if c[0] != "not":
        return False
    a = c[1]
    if a[0] == "exists" and _has_sofar(a[1]):
        return a[2] in (T.eq(attr(T.bv(1), "name"), attr(BV, "name")), T.eq(T.bv(1), BV),
                        T.eq(attr(T.bv(1), "id"), attr(BV, "id")))
    if a[0] == "in" and _has_sofar(a[2]):
        return a[1] in (BV, attr(BV, "name"), attr(BV, "id"))
    return False


def local(e):
    e.local_effects = True


def passes(ck):
    f = function(ck, "register_processes")
    G = ck.graph(None, None, fn=f, setup=local)
    P = ("param", f.params()[0][0])
    n = [0]
    I = None
    for es in G.out:
        for e, _ in es:
            if e is not None and e.kind == "call" and e.name == "get_subprocesses":
                I = e.res
    if I is None:
        undecided("get_subprocesses is not used")
    caught = set()
    for i, es in enumerate(G.out):
        for e, m in es:
            if e is not None and e.kind == "call" and e.name == "register_process":
                if any(x is not None and x.kind == "catch" for x, _ in G.out[m]):
                    caught.add(e.site)

    unrolled = not any(e is not None and e.kind == "loop" and (e.recv is None or root_source(e.recv) not in (I, P))
                       for es in G.out for e, _ in es)

    # state: checked names, element, outcome of its registration, recorded in, some pass is over, objects recorded into
    def step(q, e):
        el, got, rec, later, tries, given = q
        if unrolled and e.kind == "loop" and e.recv is not None and root_source(e.recv) in (I, P) and tries < ENOUGH:
            return (el, got, rec, later, tries + 1, given)
        r = step1((el, got, rec, later), e)
        if P != I and e.recv == P and e.kind in ("iter", "exhaust", "break"):
            given = e.kind == "iter"
        if given and e.kind == "call" and e.name == "register_process":
            fail("only as many passes are made as activities are given: nested ones may need more", e)
        return r if r is None else r + (tries, given)

    def step1(q, e):
        el, got, rec, later = q
        if e.kind == "call" and e.name == "get_subprocesses":
            a = e.arg("items") or next(iter(e.args.values()), None)
            if a != P and a not in (("list", (("splat", P),)),):
                undecided("what is collected", e) if a is None or imprecise(a) else fail(
                    f"the nested activities of {T.show(a)[:80]} are collected, not of the given ones", e)
            return q
        if (e.kind == "mutate" and root_source(e.recv) == P) or (e.kind in ("setitem", "delitem") and e.recv == P):
            fail("the given list itself is changed", e)
        if e.kind == "pop" and e.val is not None and e.val[0] in ("key", "at") and root_source(e.val[1]) in (P, I):
            undecided("activities are taken from the list", e)
        if e.kind in ("mutate", "local") and e.name in ("remove", "pop", "clear", "discard") and root_source(e.recv) == I:
            if got == "failed":
                fail("an activity whose registration failed is dropped instead of being retried", e)
            undecided("activities are taken from the list", e)
        if e.kind == "iter" and e.recv is not None and root_source(e.recv) in (I, P):
            return (e.arg("elem"), None, None, later)
        if e.kind == "loop" and e.recv is not None and e.recv[0] == "range" and e.recv[1] == T.num(0):
            k = e.recv[2]
            if k[0] == "num" and k[1] < ENOUGH or P != I and k == ("len", P):
                fail(f"only {T.show(k)} passes are made, so that registrable activities are left out or rejected", e)
        if e.kind == "iter":
            return q
        if e.kind == "call" and e.name == "register_process":
            n[0] += 1
            if distinct_names(e.facts, I) is None:
                if P != I and distinct_names(e.facts, P):
                    fail("only the names of the given activities are checked, not those of the nested ones", e)
                if any(T.mentions(a, "name") and T.mentions(a, I) and a[0] in ("eq0", "lt0", "eq", "truth")
                       for a in e.facts) and not any(x[0] == "exists" for x in e.facts):
                    undecided("whether the names were checked", e)
                if checks_names(G, I):
                    undecided("whether the names were checked", e)
                fail("activities are registered without having checked that the names are distinct", e)
            if e.recv != el:
                src = e.recv[1] if e.recv[0] in ("at", "key") else None
                if src is not None and root_source(src) == P:
                    fail("only the given activities are registered, not the nested ones", e)
                undecided("the registered activity", e)
            if root_source(el[1]) == P:
                fail("only the given activities are registered, not the nested ones", e)
            if got is not None:
                fail("an activity is registered twice in one pass", e)
            if e.site not in caught:
                fail("a registration that fails is not retried: the failure ends the whole registration", e)
            if later and not not_registered(e.facts, el):
                about = [a for a in e.facts if imprecise(a) and T.mentions(a, el)]
                if about and all(a[0] == "exists" and any(u[0] == "slice" and _has_sofar(u[1]) for u in subterms(a[1]))
                                 for a in about):
                    fail("an activity may be registered again: only a part of the registered ones is considered", e)
                if about:
                    undecided("whether the activity was registered already", e)
                fail("an activity may be registered again in a later pass", e)
            return (el, "ok", rec, later)
        if e.kind == "catch" and el is not None and got == "ok":
            if rec:
                fail("an activity counts as registered before its registration succeeded", e)
            return (el, "failed", rec, later)
        if e.kind == "local" and el is not None and e.name in ("append", "add") and e.args.get("0") in (
                el, attr(el, "name"), attr(el, "id")):
            if got == "failed":
                fail("an activity whose registration failed counts as registered", e)
            return (el, got, e.recv[1], later)
        if e.kind in ("back", "break") and el is not None and e.recv is not None and root_source(e.recv) in (I, P) \
                and e.recv == el[1]:
            if got == "ok" and rec is None and used_objects(G):
                fail("a registered activity is not recorded and is registered again in the next pass", e)
            return (None, None, None, later or got is not None)
        return q

    def at_exit(q, kind, v, s):
        if kind == "raise" and q[3] and q[4] < ENOUGH and unrolled:
            fail(f"gives up after {q[4] - 1} passes although a further one could register what is left")
        if kind != "return":
            return
        if not all_registered(s.facts, I):
            against = {a for a, v in s.facts.items() if all_registered({a: not v}, I) is True
                       or a[0] == "truth" and v is True and a[1][0] in ("list", "set", "tuple", "range", "filter")
                       or a[0] == "exists" and a[1][0] == "filter" and not v and T.bnot(a[2]) in a[1][2] or a[0] == "isnone"}
            s = types.SimpleNamespace(facts={a: v for a, v in s.facts.items() if a not in against})
            if any(imprecise(a) and not _has_sofar(a) for a in s.facts):
                undecided("whether all activities are registered")
            for a in s.facts:
                if a[0] in ("truth", "eq0", "exists", "lt0") and T.mentions(a, I) and _has_sofar(a):
                    undecided("whether all activities are registered")
                if any(u[0] in ("phi", "junk") for u in subterms(a)):
                    undecided("whether all activities are registered")
            fail("returns without knowing that every activity is registered")
    ck.walk(G, (None, None, None, False, 0, False), step, at_exit)
    return n[0]


def used_objects(G):
    for es in G.out:
        for e, _ in es:
            if e is not None and any(_has_sofar(a) for a in e.facts if a[0] in ("exists", "in")):
                return True
    return False


def checks_names(G, I):
    """Is there a raise exit that depends on the names (other than through the registered ones)?"""
    for node, kind, v, s in G.exits:
        if kind == "raise":
            for a in s.facts:
                if not _has_sofar(a) and any(u[0] == "attr" and u[2] == "name" for u in subterms(a)):
                    return True
    return False


def run(ck):
    ck.ob("closure of nested activities", "get_subprocesses", lambda: closure(ck))
    ck.ob("registration passes", "register_processes", lambda: passes(ck))
