"""Loop-exit conditions of while and repeat activities as facts over their effect graphs.

The number of completed passes is the iteration term of the outer loop plus the passes of the current iteration.  The
own STOP entry is reachable only where the branches taken imply passes >= max_iterations or that the condition event,
parsed before the loop or parsed afresh after the pass, is processed; a further pass is reachable only where the
count is not reached and both were found not processed.  Between two passes the start chain is reset once and the
whole list of sub-processes is registered again once.  The constructors bind max_iterations to the
given repetitions (repeat) or to a constant of at least 100000 (while, with the given condition event).
"""

import terms as T
from lib import SELF, attr, fail, imprecise, undecided
from rules.chain import REG, REGNAMES, all_done
from rules.common import SUBS, is_done_event, done_exprs, unwrap_expr, known_empty, log_call, plain, short, structural

LEVEL = "other"
ASSUMPTIONS = ["repetitions is at least 1 (a repeat activity with 0 repetitions runs once)",
               "a while activity makes fewer than 1,000,000 passes"]
MAXI = attr(SELF, "max_iterations")
COND = attr(SELF, "condition_event")
SIG = attr(SELF, "start_sequence")


def strip(t):
    while isinstance(t, tuple) and t[0] == "stale":
        t = t[1]
    return t


def occurred(facts, r):
    """(value, attribute) of a branch on the occurrence of event r."""
    for a, v in facts.items():
        t = a[1] if a[0] in ("truth", "isnone") else None
        if a[0] == "truth" and isinstance(t, tuple) and t[0] == "vol" and strip(t[2]) == r:
            return v, t[3]
        if a[0] in ("eq", "is") and len(a) >= 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if isinstance(x, tuple) and x[0] == "vol" and strip(x[2]) == r and y[0] == "bool":
                    return v == y[1], x[3]
    return None, None


def facts_of(e, passes):
    """Is the number of passes known to have reached max_iterations?  True / False / None."""
    diff = T.sub(passes, MAXI)
    f = e.facts
    lt = T.lt0(diff)
    if lt == ("bool", True) or f.get(lt) is True:
        return False
    if lt == ("bool", False) or f.get(lt) is False:
        return True
    if f.get(T.eq0(diff)) is True or f.get(T.lt0(T.neg(diff))) is True:
        return True
    one = T.num(1)
    if f.get(T.lt0(T.sub(T.neg(diff), one))) is True:     # max - passes < 1
        return True
    if f.get(T.lt0(T.sub(T.neg(diff), one))) is False:
        return False
    if f.get(T.lt0(T.add(diff, one))) is True:
        return False
    return None


def loop_exit(ck, G, repeat):
    n = [0]

    # state: phase; outer loop site; count of passes in this iteration; pass state None|'open'|'done'; ...; last: a
    #        pass was made ("first": in this, the first iteration);
    #        static event; fresh event; chain reset; registered; reason ('branches' of this pass); exhausted range
    def step(q, e):
        ph, L, p, ps, static, fresh, reset, rereg, why, ever = q
        lg = log_call(e)
        if lg and lg[0] == SELF and plain(lg[4]):
            if lg[1] == "START":
                return (1,) + q[1:]
            if lg[1] == "STOP" and ph == 1:
                n[0] += 1
                if not ever:
                    fail("the activity ends without a pass over its sub-processes", e)
                if why is None:
                    why = reasons(e, q)
                if ps != "done" and not known_empty(e.facts, SUBS):
                    fail("the activity ends although the last pass over its sub-processes need not be complete", e)
                if why == "range":
                    return (2,) + q[1:]
                cnt, st, fr, kinds = why
                if cnt is True or st is True or fr is True:
                    if not cnt and "processed" not in kinds:
                        fail("the loop ends on an event that has not occurred yet (triggered only)", e)
                    return (2,) + q[1:]
                if reset or rereg:
                    fail("the loop ends after it prepared a further pass", e)
                fail("the loop ends although neither the condition event has occurred nor the number of repetitions "
                     f"is known to be reached (count: {cnt}, at start: {st}, afresh: {fr})", e)
        if ph != 1:
            return q
        if e.kind == "call" and e.name == "parse_expression" and unwrap_expr(e.arg("expr")) == unwrap_expr(COND):
            if not ever:
                return (ph, L, p, ps, e.res, None, reset, rereg, why, ever)
            if ps == "done":
                return (ph, L, p, ps, static, e.res, reset, rereg, why, ever)
            return q
        if e.kind == "call" and e.name == "succeed" and (e.recv == SIG or T.mentions(e.recv, SIG)):
            n[0] += 1
            if ever:
                if ps != "done" and not known_empty(e.facts, SUBS):
                    fail("a further pass although the previous one need not be complete", e)
                if why is None:
                    undecided("a further pass whose condition cannot be read", e)
                if why != "range":
                    cnt, st, fr, kinds = why
                    if repeat:
                        if cnt is not False:
                            fail("a further pass although the number of repetitions may be reached", e)
                    else:
                        if st is None or fr is None:
                            fail("a further pass without having checked the condition event "
                                 + ("as it was at the start of the loop" if st is None else "afresh"), e)
                        if st or fr:
                            fail("a further pass although the condition event has occurred", e)
                        if "processed" not in kinds:
                            fail("the condition is not read from the processed state of its event", e)
                if reset != 1 or rereg != 1:
                    fail("a further pass without resetting the start chain and registering every sub-process once "
                         f"(resets: {reset}, registrations: {rereg})", e)
            return (ph, L, p + 1 if p < 3 else p, "open", static, None, 0, 0, None, ever or "first")
        if e.kind == "call" and e.name in REGNAMES and e.recv == SELF:
            return (ph, L, p, ps, static, fresh, reset + 1 if reset < 2 else 2, rereg,
                    why if why is not None else reasons(e, q), ever)
        if e.kind == "call" and e.name == "register_processes":
            a = e.arg("processes")
            if a != SUBS and unlist(a) != SUBS:
                undecided("registers something unidentified", e) if imprecise(a) else fail(
                    f"registers {T.show(a)[:100]} instead of all sub-processes", e)
            return (ph, L, p, ps, static, fresh, reset, rereg + 1 if rereg < 2 else 2,
                    why if why is not None else reasons(e, q), ever)
        if e.kind == "loop" and e.recv != SUBS and not ever and (L is None or p == 0):
            return (ph, e.site, 0, ps, static, fresh, reset, rereg, why, ever)
        if e.kind == "yield" and ps == "open" and all_done(e.val):
            return (ph, L, p, "done", static, fresh, reset, rereg, why, ever)
        if e.kind in ("iter", "loop", "exhaust") and e.recv == SUBS:
            if e.kind == "exhaust" and ps == "open":
                return (ph, L, p, "done", static, fresh, reset, rereg, why, ever)
            return q
        if e.kind == "break" and e.recv == SUBS and ps == "open":
            fail("a pass over the sub-processes is abandoned", e)
        if L is not None and e.site == L and e.kind in ("back", "break", "exhaust"):
            if why is None and ever and ps == "done":
                why = reasons(e, q)
            if e.kind == "back":
                if p != 1:
                    undecided("iterations of the loop with another number of passes than one", e)
                p = 0
                ever = bool(ever)
            if e.kind == "exhaust" and e.recv is not None:
                if range_end(e.recv) == MAXI and p == 0:
                    if not ever:
                        return None       # no repetitions at all: see the assumptions
                    why = "range"
                elif range_end(e.recv) is not None:
                    fail(f"the number of passes is {T.show(e.recv)}, not max_iterations", e)
            return (ph, L, p, ps, static, fresh, reset, rereg, why, ever)
        return q

    def reasons(e, q):
        ph, L, p, ps, static, fresh, reset, rereg, why, ever = q
        base = ("it", L) if L is not None else T.num(0)
        cnt = facts_of(e, T.add(base, T.num(p)))
        if cnt is None and ever == "first":      # the first iteration, counted from 0
            cnt = facts_of(e, T.num(p))
        st, k1 = occurred(e.facts, static) if static is not None else (None, None)
        fr, k2 = occurred(e.facts, fresh) if fresh is not None else (None, None)
        return (cnt, st, fr, frozenset(k for k in (k1, k2) if k))

    ck.walk(G, (0, None, 0, None, None, None, 0, 0, None, False), step)
    return n[0] or fail("no loop found")


def range_end(r):
    """n for the iterable range(n) / range(0, n)."""
    if r[0] == "range" and r[3] == T.num(1):
        return T.sub(r[2], r[1])
    return None


def unlist(t):
    if t[0] in ("copy", "list") and len(t) == 2 and isinstance(t[1], tuple) and len(t[1]) == 1 and t[1][0][0] == "star":
        return t[1][0][1]
    if t[0] == "copy":
        return t[1]
    return t


def constructor(ck, q, repeat):
    G = ck.graph(q, "__init__")
    got = {}

    def step(st, e):
        if e.kind == "setattr" and e.recv == SELF and e.name in ("max_iterations", "condition_event"):
            got.setdefault(e.name, set()).add((e.val, e))
            return st | {e.name}
        return st

    def at_exit(st, k, v, s):
        if k == "return" and len(st) < 2:
            fail(f"the constructor does not set {' and '.join({'max_iterations', 'condition_event'} - st)}")
    ck.walk(G, frozenset(), step, at_exit)
    for v, e in got["max_iterations"]:
        if repeat:
            if v != ("param", "repetitions"):
                undecided("max_iterations", e) if imprecise(v) else fail(
                    f"max_iterations is {T.show(v)[:100]}, not the given repetitions", e)
        else:
            ok = v[0] in ("num", "float") and v[1] >= 100000 or v[0] == "inf"
            if not ok:
                undecided("max_iterations", e) if imprecise(v) else fail(
                    f"a while activity is limited to {T.show(v)[:60]} passes", e)
    for v, e in got["condition_event"]:
        if repeat:
            own = unwrap_expr(v)
            if own in done_exprs(SELF) or is_done_event(v, SELF) or (v[0] == "res" and v[2] == "event"):
                continue
            undecided("condition of a repeat activity", e) if imprecise(v) else fail(
                f"a repeat activity also stops on {T.show(v)[:120]}", e)
        elif v != ("param", "condition_event"):
            undecided("condition_event", e) if imprecise(v) else fail(
                f"condition_event is stored as {T.show(v)[:120]}", e)
    return 2


def run(ck):
    found = 0
    for q, kind in structural(ck):
        c = ck.prog.classes[q]
        repeat = "epeat" in short(q)
        if not (repeat or "hile" in short(q)):
            continue
        found += 1
        ck.ob("loop ends and continues", short(q), lambda: loop_exit(ck, ck.activity(q), repeat))
        ck.ob("limit and condition", short(q), lambda: constructor(ck, q, repeat))
    ck.ob("loops exist", "model", lambda: found if found >= 2 else fail("while or repeat activity missing"))
