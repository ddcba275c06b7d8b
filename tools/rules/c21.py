"""Value analysis (polynomial normal form) of the rate functions and dataflow of the duration of a transfer.

loading / unloading: on the branch where the rate is a function, it is called once with the level of the vessel side (the
destination's when loading, the origin's when unloading) of the given id before and after the shift; else the amount is
divided by the rate; on both the manoeuvring minutes times 60 are added and the amount is returned unchanged.  In the
transfer, on every path, the work lasts the activity's duration if that is not None, else component 0 of the processor's
function of the phase, called for the activity's objects, amount and id before any content moves; other phases raise.
"""

import terms as T
from lib import CONFIGS, SELF, attr, fail, imprecise, subterms, undecided
from rules import c04, shift
from rules.c20 import stored_as
from rules.common import short
from rules.shift import ID, content, determined

LEVEL = "other"
AMOUNT, PID = ("param", "amount"), ("param", "id_")
KINDS = {"loading": ("LoadingFunction", "loading_rate", "load_manoeuvring", "destination", 1),
         "unloading": ("UnloadingFunction", "unloading_rate", "unload_manoeuvring", "origin", -1)}


def is_function(facts, rate):
    """Do the facts say the rate is a function?  True / False / None"""
    for a, v in facts.items():
        if a == ("hasattr", rate, "__call__"):
            return v
        if a[0] == "truth" and a[1][0] in ("call", "mcall") and "callable" in str(a[1][1]) and rate in subterms(a[1]):
            return v
        if a[0] in ("callable", "truth") and a[1] == ("callable", rate) or a == ("callable", rate):
            return v
        if a[0] == "isinstance" and a[1] == rate:
            s = repr(a[2])
            if "int" in s and "float" in s:
                return False if v else None
            if "Callable" in s or "Function" in s:
                return v
    return None


def rate_function(ck, kind):
    cls, rname, mname, side, sign = KINDS[kind]
    attrs = {}
    for p in (rname, mname):
        names = stored_as(ck, cls, p)
        if not names:
            fail(f"{p} is not stored")
        attrs[p] = [attr(SELF, a) for a in names]
    G = ck.graph(cls, kind)
    cont = attr(("param", side), "container")
    n = 0
    seen = set()
    for _, k, v, st in G.exits:
        if k != "return":
            continue
        n += 1
        if v is None or v[0] not in ("tuple", "list") or len(v[1]) != 2 or any(s[0] != "item" for s in v[1]):
            undecided(f"the result {T.show(v)[:120]}") if v is None or imprecise(v) else fail(
                f"returns {T.show(v)[:150]}, not a duration and an amount")
        dur, am = v[1][0][1], v[1][1][1]
        if am != AMOUNT:
            undecided("the reported amount") if imprecise(am) else fail(
                f"reports the amount {T.show(am)[:150]} instead of the given one")
        ok = False
        why = None
        for rate in attrs[rname]:
            for man in attrs[mname]:
                f = is_function(st.facts, rate)
                rest = T.sub(dur, T.mul(T.num(60), man))
                if f is False or f is None and rest == T.div(AMOUNT, rate):
                    if f is None:
                        undecided("when the rate counts as a number")
                    ok = ok or rest == T.div(AMOUNT, rate)
                    seen.add("number")
                    continue
                if f is None:
                    why = "whether the rate is a function"
                    continue
                seen.add("function")
                if rest[0] == "res" and rest[3:4] and attr(rest[3] or SELF, rest[2]) == rate or \
                        rest[0] == "res" and rest[2] == "<call>" and rest[3] == rate:
                    a = dict(rest[4])
                    before, after = a.get("0"), a.get("1")
                    lv = ("get_level", cont)
                    if len(a) != 2 or before is None or after is None:
                        fail(f"the rate function is called as {T.show(rest)[:150]}")
                    if before[0] != "obs" or (before[2], before[3]) != lv or dict(before[4]).get("id_") != PID:
                        undecided("the level before") if imprecise(before) else fail(
                            f"the level before the shift is {T.show(before)[:150]}, expected that of the {side}")
                    want = T.add(before, T.mul(T.num(sign), AMOUNT))
                    if after != want:
                        undecided("the level after") if imprecise(after) else fail(
                            f"the level after the shift is {T.show(after)[:200]}, expected {T.show(want)[:200]}")
                    ok = True
        if not ok:
            if why:
                undecided(why)
            known = {u for u in subterms(dur) if u[0] == "res"}
            undecided(f"the duration {T.show(dur)[:150]}") if imprecise(dur, known) else fail(
                f"the duration is {T.show(dur)[:250]}")
    for w in ("number", "function"):
        if w not in seen:
            fail(f"a rate that is a {w} is not supported")
    return n


def rate_call(t):
    """The call of a phase's function of whose result t is the duration, else None."""
    if t[0] == "key" and t[2] == T.num(0) and t[1][0] == "res" and t[1][2] in KINDS:
        return t[1]
    return None


def transfer(ck, config):
    G = shift.graph(ck, config)
    proc, org, dst = shift.roles(config)
    D, PH = attr(SELF, "duration"), attr(SELF, "phase")
    n = [0]

    def phase_of(facts, known):
        for p in KINDS:
            if known == p:
                return p
        return None

    # state: (duration given?, phase, content moved yet, worked)
    def step(s, e):
        given, ph, moved, worked = s
        if e.kind == "assume":
            a, v = e.recv, e.val == T.TRUE
            if a == T.isnone(D):
                if given is not None and given == v:
                    return None
                return (not v, ph, moved, worked)
            if a == T.truth(D) and given is None:
                return ("yes" if v else "no", ph, moved, worked)
            if a[0] == "eq" and PH in a[1:]:
                o = a[1] if a[2] == PH else a[2]
                if o[0] == "str" and v:
                    if ph is not None and ph != o[1]:
                        return None
                    return (given, o[1], moved, worked)
            return s
        if e.kind == "call" and e.name in KINDS and e.recv == proc:
            n[0] += 1
            if moved:
                fail("the duration is determined after content has moved", e)
            if e.name != ph:
                fail(f"{e.name} is used in phase {ph or 'of another kind'}", e)
            for k, w in (("origin", org), ("destination", dst), ("id_", ID)):
                if e.arg(k) != w:
                    g = e.arg(k)
                    undecided(f"the {k}", e) if g is None or imprecise(g) else fail(
                        f"{e.name} gets {k} {T.show(g)[:100]}, expected {T.show(w)}", e)
            am = e.arg("amount")
            if am is None or determined(am) is None:
                undecided("the amount", e) if am is None or imprecise(am) else fail(
                    f"{e.name} gets the amount {T.show(am)[:100]}", e)
            return s
        c = content(e)
        if c is not None:
            return (given, ph, True, worked)
        if e.kind == "yield" and e.val[0] == "res" and e.val[2] == "timeout":
            n[0] += 1
            dl = dict(e.val[4]).get("delay", T.NONE)
            r = rate_call(dl)
            if worked:
                fail("the transfer takes time twice", e)
            if dl == D:
                if given is False:
                    fail("no duration is given, and the function of the phase is not used", e)
                if given is None or given == "no":
                    undecided("whether a duration is given", e)
            elif r is not None:
                if given is not False:
                    fail("a given duration (possibly 0) is replaced by the function of the phase", e)
            else:
                undecided("the duration", e) if imprecise(dl) else fail(
                    f"the transfer takes {T.show(dl)[:200]}", e)
            return (given, ph, moved, True)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and s[2] and not s[3]:
            fail("content moves without taking time")
    ck.walk(G, (None, None, False, False), step, at_exit)
    return n[0] or fail("a transfer takes no time")


def options(ck):
    q = shift.shift(ck)
    n = 0
    for p in ("duration", "phase", "id_"):
        names = stored_as(ck, q, p)
        n += 1
        if p not in names:
            G = ck.graph(q, "__init__")
            vals = [e.val for o in G.out for e, _ in o if e is not None and e.kind == "setattr" and e.name == p]
            undecided(f"option {p}") if any(imprecise(v) for v in vals) else fail(f"the given {p} is not used as given")
    return n


def run(ck):
    for k in KINDS:
        ck.ob("rate function", k, lambda: rate_function(ck, k))
    for c in CONFIGS:
        ck.ob("duration of a transfer", c, lambda: transfer(ck, c))
    ck.ob("options of a transfer", "ShiftAmountActivity", lambda: options(ck))
    ck.ob("reported level", "get_level", lambda: c04.reports(ck, "get_level", "level"))
