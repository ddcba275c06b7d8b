"""Bounds of the determined amount on every branch, and a check-after-wait typestate of the transfer's start.

Every return of the amount computation is, by its minimum structure or the comparisons on its branch, at most the
requested amount, the origin's level and the destination's free space of the transfer's id, and only branches with
positive level and positive free space return.  In the activity every path that waited for the processor's or origin's
resource passes the level comparison of the same amount before the work starts; the branch where the level is too small
gives back every resource requested since the last wait for content and cannot reach the work without waiting again.
"""

import terms as T
from lib import CONFIGS, D_, O_, P_, SELF, attr, fail, imprecise, subterms, undecided
from rules import shift
from rules.c04 import reports
from rules.c06 import requests_in
from rules.common import is_waiting, log_call, plain
from rules.shift import ID, determined

LEVEL = "other"
ASSUMPTIONS = ["the transferred amount is positive"]


def query(t, what, owner, i):
    return t[0] in ("res", "obs") and t[2] == what and t[3] == attr(owner, "container") and dict(t[4]).get("id_") == i


def leaves(t):
    return list(t[1]) if t[0] == "min" else [t]


def at_most(v, x, facts):
    """Is v <= x by structure or by the facts?"""
    if v == x or x in leaves(v):
        return True
    d = T.sub(v, x)
    if facts.get(T.lt0(d)) is True or facts.get(T.lt0(T.neg(d))) is False:
        return True
    for y in leaves(v):
        e = T.sub(y, x)
        if facts.get(T.lt0(e)) is True or facts.get(T.lt0(T.neg(e))) is False:
            return True
    return False


def bounds(ck):
    f = ck.prog.find_method("Processor", "determine_processor_amount")
    G = ck.graph(None, None, fn=f, self_type=ck.prog.find_class("openclsim.core.processor.Processor").qual)
    A, I = ("param", "amount"), ("param", "id_")
    O, D = ("param", "origin"), ("param", "destination")
    n = [0]

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        terms = set()
        for t in (v, *st.facts):
            terms |= set(subterms(t))
        lv = {t for t in terms if query(t, "get_level", O, I)}
        cp = {t for t in terms if query(t, "get_capacity", D, I)}
        dl = {t for t in terms if query(t, "get_level", D, I)}
        free = {T.sub(c, w) for c in cp for w in dl}
        imp = imprecise(v)
        if not any(at_most(v, x, st.facts) for x in lv):
            undecided("amount") if imp else fail(f"the amount {T.show(v)[:160]} may exceed the origin's content")
        if not any(at_most(v, x, st.facts) for x in free):
            undecided("amount") if imp else fail(f"the amount {T.show(v)[:160]} may exceed the destination's free space")
        if st.facts.get(T.isnone(A)) is not True and not at_most(v, A, st.facts):
            if st.facts.get(T.truth(A)) is False:
                return
            undecided("amount") if imp else fail(f"the amount {T.show(v)[:160]} may exceed the requested amount")
        for xs, what in ((lv, "with no content in the origin"), (free, "with no free space in the destination")):
            if not any(st.facts.get(T.lt0(T.neg(x))) is True for x in xs):
                fail(f"{what} the transfer does not fail")
    ck.walk(G, 0, lambda s, e: s, at_exit)
    return n[0]


def start(ck, config):
    G = shift.graph(ck, config)
    P, O, D = shift.roles(config)
    res = {attr(P, "resource"), attr(O, "resource")}
    n = [0]

    def det(t):
        a = determined(t)
        if a is None:
            return None
        return a

    def level_too_small(a):
        """(amount) when the atom is level(origin) < amount"""
        if a[0] != "lt0":
            return None
        ams = [u for u in subterms(a) if u[0] == "res" and u[2] == "determine_processor_amount"]
        lvs = [u for u in subterms(a) if query(u, "get_level", O, ID)]
        for x in ams:
            for y in lvs:
                if a == T.lt0(T.sub(y, x)):
                    return x, True
                if a == T.lt0(T.sub(x, y)):
                    return x, None          # amount < level: also sufficient when true
        return None

    # state: amount of the last check, waited since it (must check), resources requested since the last content wait,
    #        too small (may not proceed)
    def step(s, e):
        checked, waited, got, small, wanted = s
        if e.kind == "yield":
            rs = requests_in(e.val)
            if rs:
                if any(r in res for r in rs):
                    n[0] += 1
                    return (None, True, got | {r for r in rs if r in res}, small, wanted)
                return s
            if is_waiting(e.val):
                if small:
                    left = sorted(got, key=repr)
                    if left:
                        fail(f"the transfer waits again without giving back {T.show(left[0])}", e)
                return (checked, waited, frozenset(), False, wanted)
        if e.kind == "call" and e.name == "release":
            return (checked, waited, got - {e.recv}, small, wanted)
        if e.kind == "assume":
            a = e.recv
            m = level_too_small(a)
            if m is not None:
                n[0] += 1
                x, exact = m
                if exact:
                    if e.val == T.TRUE:
                        return (None, waited, got, True, wanted)
                    return (x, False, got, False, wanted)
                if e.val == T.TRUE:
                    return (x, False, got, False, wanted)
                return s
            if not positive(a, e.val == T.TRUE):
                return None
        lg = log_call(e)
        if lg and lg[0] == SELF and plain(lg[4]) and lg[1] == "START":
            if small:
                fail("the transfer starts although the origin's content has become too small", e)
            if waited:
                if any(imprecise(a) and T.mentions(a, attr(O, "container")) for a in e.facts):
                    undecided("whether the content is checked again", e)
                fail("after waiting for a resource the transfer starts without checking the origin's content again", e)
            return (checked, waited, got, small, True)
        c = shift.content(e)
        if c is not None and c[0] == "get" and c[1] == O and shift.is_reservation(c[2]) is False:
            amt = c[3]
            r = shift.rate_result(amt, 1)
            if r is not None and r[2] != "<call>":
                amt = dict(r[4]).get("amount", amt)
            a = det(amt)
            if a is None:
                undecided("amount of the transfer", e) if imprecise(amt) else fail(
                    f"the transfer starts with {T.show(amt)[:160]}", e)
            for k, w in (("origin", O), ("destination", D), ("amount", attr(SELF, "amount")), ("id_", ID)):
                if a.get(k) != w:
                    undecided(k, e) if a.get(k) is None or imprecise(a[k]) else fail(
                        f"the amount is determined for {k} {T.show(a[k])}, not {T.show(w)}", e)
            if checked is not None and checked != amt:
                fail("the content is checked for another amount than the transfer uses", e)
        return s

    def positive(a, v):
        if a[0] != "lt0" or not any(u[0] == "res" and u[2] == "determine_processor_amount" for u in subterms(a)):
            return True
        p = T.to_poly(a[1])
        if len(p) == 1:
            (m, c), = p.items()
            return v is (c < 0)
        return True

    ck.walk(G, (None, False, frozenset(), False, False), step)
    return n[0] or fail("no resource is waited for")


def run(ck):
    ck.ob("bounds of the amount", "determine_processor_amount", lambda: bounds(ck))
    ck.ob("level query", "get_level", lambda: reports(ck, "get_level", "level"))
    ck.ob("capacity query", "get_capacity", lambda: reports(ck, "get_capacity", "capacity"))
    for c in CONFIGS:
        ck.ob("content checked after every wait", c, lambda: start(ck, c))
