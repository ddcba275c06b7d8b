"""Value analysis of the reservation accounts at registration and at the transfer.

At registration, on every path, the booked amount is stored and put to the destination's and taken from the origin's
reservation account of the transfer's id; its closed form is the requested amount or the minimum of both capacities.  In
the transfer (end to end graph, every aliasing of the roles) exactly one correction per account has the amount actual -
booked, where actual is the term of the content change.
"""

import terms as T
from lib import CONFIGS, D_, O_, SELF, attr, fail, imprecise, undecided
from rules import shift
from rules.c04 import changes
from rules.shift import BOOKED, ID, content, is_reservation

LEVEL = "other"


def corrections(ck, config):
    G = shift.graph(ck, config)
    P, O, D = shift.roles(config)
    n = [0]

    # state: ((way -> content amount), (way -> correction), pending events, differences found to be zero)
    def step(x, e):
        s, zero = x[:3], x[3]
        if e.kind == "assume" and e.recv[0] in ("eq0", "eq") and T.mentions(e.recv, BOOKED):
            was = dict(zero).get(e.recv)
            if was is not None and was != (e.val == T.TRUE):
                return None
            zero = dict_set(zero, e.recv, e.val == T.TRUE)
        return (*step3(s, e), zero)

    def step3(s, e):
        amts, cor, pend = s
        c = content(e)
        if c is not None:
            way, owner, i, a = c
            kind = is_reservation(i)
            if kind is None:
                undecided("container id", e)
            if owner not in (O, D) or owner != (O if way == "get" else D):
                if kind is True:
                    fail(f"the reservation of {T.show(owner)} is changed by {way}", e)
                return s
            if kind is False:
                return (dict_set(amts, way, a), cor, pend)
            n[0] += 1
            if i != shift.RES_ID:
                fail(f"the reservation account {T.show(i)} is corrected", e)
            if dict(cor).get(way):
                fail("the reservation is corrected twice", e)
            if imprecise(T.add(a, BOOKED)) and not any(v == T.add(a, BOOKED) for _, v in amts):
                if not T.mentions(a, "loading") and not T.mentions(a, "unloading"):
                    undecided("correction of the reservation", e)
            return (amts, dict_set(cor, way, a), pend | {e.res})
        if e.kind == "yield" and pend:
            return (amts, cor, frozenset(p for p in pend if not T.mentions(e.val, p)))
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        amts, cor = dict(s[0]), dict(s[1])
        for way, what in (("get", "origin"), ("put", "destination")):
            if way not in amts:
                continue
            want = T.sub(amts[way], BOOKED)
            if way not in cor:
                if any(dict(s[3]).get(z) or st.facts.get(z) for z in (T.eq0(want), T.eq(amts[way], BOOKED))):
                    continue
                fail(f"the reservation of the {what} is not corrected by the actual amount")
            if cor[way] != want:
                fail(f"the reservation of the {what} is corrected by {T.show(cor[way])[:200]}, expected "
                     f"{T.show(want)[:200]}")
        if s[2]:
            undecided("a correction is not waited for")
    ck.walk(G, ((), (), frozenset(), ()), step, at_exit)
    return n[0] or fail("reservations are never corrected")


def dict_set(t, k, v):
    d = dict(t)
    d[k] = v
    return tuple(sorted(d.items()))


def booking(ck):
    q = shift.shift(ck)
    G = ck.graph(q, "register_process", transparent=("make_container_reservation",))
    n = [0]

    def booked(t):
        return t[0] == "res" and t[2] == "determine_reservation_amount"

    # state: (stored amount, ways booked, process created)
    def step(s, e):
        amt, ways, started = s
        if e.kind == "setattr" and e.recv == SELF and e.name == "reserved_amount":
            if not booked(e.val):
                undecided("booked amount", e)
            a = dict(e.val[4])
            for k, w in (("origin", O_), ("destination", D_), ("amount", attr(SELF, "amount")), ("id_", ID)):
                if a.get(k) != w:
                    undecided(k, e) if a.get(k) is None or imprecise(a[k]) else fail(
                        f"the booked amount is determined for {k} {T.show(a[k])}", e)
            return (e.val, ways, started)
        c = content(e)
        if c is not None:
            way, owner, i, a = c
            n[0] += 1
            if i != shift.RES_ID:
                undecided("container id", e) if i is None or imprecise(i) else fail(
                    f"registration changes the account {T.show(i)}", e)
            want = D_ if way == "put" else O_
            if owner != want:
                fail(f"the reservation of {T.show(owner)} is changed by {way}", e)
            if way in ways:
                fail("the amount is booked twice", e)
            if not booked(a):
                undecided("booked amount", e) if imprecise(a) else fail(f"{T.show(a)[:120]} is booked", e)
            if amt is not None and a != amt:
                fail("the amount booked differs from the one remembered", e)
            return (a, ways | {way}, started)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return":
            if s[1] != {"get", "put"}:
                fail("registering a transfer does not book its amount at " + ("origin and destination" if not s[1] else
                     "the origin" if "get" not in s[1] else "the destination"))
            if s[0] is None:
                fail("the booked amount is not remembered")
    ck.walk(G, (None, frozenset(), False), step, at_exit)
    return n[0]


def minimum(t):
    return list(t[1]) if t[0] == "min" else [t]


def amount(ck):
    G = ck.graph(None, None, fn=ck.prog.find_method("Processor", "determine_reservation_amount"),
                 self_type=ck.prog.find_class("openclsim.core.processor.Processor").qual)
    A, I = ("param", "amount"), ("param", "id_")
    n = [0]

    def cap(o):
        return lambda t: t[0] in ("res", "obs") and t[2] == "get_capacity" and t[3] == attr(("param", o), "container") \
            and dict(t[4]).get("id_") == I

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        none = st.facts.get(T.isnone(A))
        zero = st.facts.get(T.truth(A))
        if v == A:
            if none is not False and zero is not True:
                fail("the booked amount is the requested amount also when there is none")
            return
        if none is False and zero is not False or none is None and zero is not False:
            undecided("booked amount") if imprecise(v) else fail(
                f"the booked amount is {T.show(v)[:160]} although an amount is requested")
        ls = minimum(v)
        a, b = cap("origin"), cap("destination")
        if len(ls) == 2 and (a(ls[0]) and b(ls[1]) or a(ls[1]) and b(ls[0])):
            return
        if len(ls) == 1 and (a(ls[0]) or b(ls[0])):
            # chosen by a comparison
            for f, val in st.facts.items():
                if f[0] == "lt0":
                    p = T.to_poly(f[1])
                    ms = [m[0][0] for m in p if m and len(m) == 1]
                    if len(ms) == 2 and any(map(a, ms)) and any(map(b, ms)):
                        o = next(x for x in ms if x != ls[0])
                        if f == T.lt0(T.sub(ls[0], o)) and val or f == T.lt0(T.sub(o, ls[0])) and not val:
                            return
            fail("without a requested amount the booked amount is not the smaller of both capacities")
        undecided("booked amount") if imprecise(v) else fail(
            f"without a requested amount {T.show(v)[:200]} is booked")
    ck.walk(G, 0, lambda s, e: s, at_exit)
    return n[0]


def run(ck):
    ck.ob("booking at registration", "register_process", lambda: booking(ck))
    ck.ob("booked amount", "determine_reservation_amount", lambda: amount(ck))
    for c in CONFIGS:
        ck.ob("correction", c, lambda: corrections(ck, c))
    ck.ob("put adds the amount", "put", lambda: changes(ck, "put", 1))
    ck.ob("get takes the amount", "get", lambda: changes(ck, "get", -1))
