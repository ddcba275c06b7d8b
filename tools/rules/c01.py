"""Order and value analysis of content changes and delays on all paths of a transfer, end to end through the processor.

In the graph of the activity with the processor's transfer in line, for every aliasing of the three roles, each path to
the end has exactly one content change of the origin (a get under the transfer's id), completed before exactly one
timeout, and one of the destination (a put of the syntactically same amount term under the same id) completed after it;
amount and delay are components 1 and 0 of the same rate function result (or the fixed duration and the determined
amount); every other put or get concerns a reservation account.  put and get change the account by that amount.
"""

import terms as T
from lib import CONFIGS, SELF, attr, fail, imprecise, undecided
from rules import shift
from rules.c04 import changes
from rules.common import is_work
from rules.shift import ID, content, determined, is_reservation, rate_result

LEVEL = "other"
DUR = attr(SELF, "duration")


def source(amount, e):
    """What the amount comes from: the rate function's result, or 'fixed'."""
    r = rate_result(amount, 1)
    if r is not None:
        a = dict(r[4])
        if r[2] != "<call>" and (a.get("amount") is None or determined(a["amount"]) is None):
            g = a.get("amount")
            undecided("amount given to the rate function", e) if g is None or imprecise(g) else fail(
                f"the rate function is called for {T.show(g)[:120]}", e)
        return r
    if determined(amount) is not None:
        return "fixed"
    undecided("amount of the transfer", e) if imprecise(amount) else fail(
        f"the amount taken is {T.show(amount)[:160]}, not the one of the rate function", e)


def conserve(ck, config):
    G = shift.graph(ck, config)
    P, O, D = shift.roles(config)
    n = [0]

    # state: 0 nothing, 1 get called, 2 get done, 3 delayed, 4 put called, 5 put done; amount; source; pending event
    def step(s, e):
        ph, amt, src, pend = s
        c = content(e)
        if c is not None:
            way, owner, i, a = c
            kind = is_reservation(i)
            if kind is True:
                return s
            if kind is None:
                if owner in (P, O, D) and i is not None and not imprecise(i):
                    fail(f"content of {T.show(i)[:80]} is changed, not of the transfer's container id", e)
                undecided("container id", e)
            n[0] += 1
            if way == "get":
                if ph != 0:
                    fail("content is taken twice", e)
                if owner != O:
                    fail(f"content is taken out of {T.show(owner)}, not out of the origin", e)
                return (1, a, source(a, e), e.res)
            if ph < 3:
                fail("content arrives " + {0: "before it is taken out of the origin"}.get(
                    ph, "before the transfer time has passed"), e)
            if ph > 3:
                fail("content is added twice", e)
            if owner != D:
                fail(f"content is added to {T.show(owner)}, not to the destination", e)
            if a != amt:
                undecided("amount added", e) if imprecise(a) and rate_result(a, 1) is None else fail(
                    f"{T.show(a)[:120]} is added although {T.show(amt)[:120]} was taken", e)
            return (4, amt, src, e.res)
        if e.kind == "yield":
            if pend is not None and e.val == pend:
                return (ph + 1, amt, src, None)
            v = e.val
            if v[0] == "res" and v[2] == "timeout":
                if ph in (1, 4):
                    fail("time passes before the content change has been carried out", e)
                if ph == 2:
                    dl = dict(v[4]).get("delay")
                    want = DUR if src == "fixed" else ("key", src, T.num(0))
                    if dl != want:
                        undecided("transfer time", e) if dl is None or imprecise(dl) and rate_result(dl, 0) is None \
                            else fail(f"the transfer takes {T.show(dl)[:120]}, expected {T.show(want)[:160]}", e)
                    return (3, amt, src, None)
                if ph == 3 or ph == 5:
                    fail("the transfer takes a second delay", e)
            if pend is not None and T.mentions(v, pend):
                return (ph + 1, amt, src, None)
            if ph in (2, 3) and is_work(e) and not (v[0] == "res" and v[2] in ("put", "get")):
                undecided("another delay", e)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        if s[0] != 5:
            fail({0: "nothing is transferred", 1: "the transfer does not wait until the content is taken",
                  2: "the transfer takes no time", 3: "the content taken is not added to the destination",
                  4: "the transfer does not wait until the content is added"}[s[0]])
    ck.walk(G, (0, None, None, None), step, at_exit)
    return n[0]


def run(ck):
    for c in CONFIGS:
        ck.ob("conservation", c, lambda: conserve(ck, c))
    ck.ob("put adds the amount", "put", lambda: changes(ck, "put", 1))
    ck.ob("get takes the amount", "get", lambda: changes(ck, "get", -1))
