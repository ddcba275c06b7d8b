"""Typestate automaton for the sub-process entries of the structural activities.

Sequential, while and repeat: in every iteration over self.sub_processes the element is opened by one START entry
labelled with its id, then exactly its completion is awaited, then one STOP entry with its id is written, all at the
current time, and no time passes outside such a bracket.  Every pass covers all sub-processes.
Parallel: one START entry per element before any wait; every wait is for any of the remaining elements; a STOP entry
for element k needs a branch that established the completion of the same k, which is then removed; the activity ends
only when nothing remains.
"""

import terms as T
from lib import SELF, expect, fail, undecided
from rules.chain import rebuilt
from rules.common import (SUBS, check_log, elem_source, is_done_event, is_work, known_empty, log_call, now, parsed,
                          plain, root_source, short, structural, sub_label, attr, done_exprs, unwrap_expr)

LEVEL = "other"


def elem_of_ref(ref):
    if ref is not None and ref[0] == "attr" and ref[2] == "id":
        return ref[1]
    return None


def sequential(ck, G):
    n = [0]

    def step(q, e):
        ph, el, st, runs = q     # ph: own bracket 0/1/2; el: open element; st: 0 opened, 1 finished; runs: passes seen
        lg = log_call(e)
        if lg and lg[0] == SELF:
            if plain(lg[4]):
                if lg[1] == "START":
                    return (1, None, 0, runs)
                if lg[1] == "STOP":
                    if el is not None:
                        fail("the activity ends while a sub-process entry is open", e)
                    if not runs and not known_empty(e.facts, SUBS):
                        fail("the activity ends without having run its sub-processes", e)
                    return (2, None, 0, runs)
                return q
            x = elem_of_ref(sub_label(lg[4]))
            if x is None:
                if lg[1] in ("START", "STOP"):
                    undecided("sub-process label cannot be resolved", e) if sub_label(lg[4]) is not None and \
                        T.mentions(sub_label(lg[4]), ("phi",)) else fail(
                            "own START/STOP entry whose label is not that of a sub-process", e)
                return q
            src = elem_source(x)
            if src is None or src[0] != SUBS or src[2] != 0:
                fail(f"entry labelled {T.show(x)}, not the current sub-process", e)
            n[0] += 1
            check_log(e, what="sub-process entry")
            if lg[1] == "START":
                if el is not None:
                    fail("START entry of a sub-process while another is open", e)
                return (ph, x, 0, runs)
            if lg[1] == "STOP":
                if el != x:
                    fail("STOP entry of a sub-process that was not opened in this run", e)
                if st != 1:
                    fail("STOP entry of a sub-process before it has finished", e)
                return (ph, ("closed", x), 0, runs)
            fail(f"sub-process entry with state {lg[1]}", e)
        if e.kind == "yield" and ph == 1:
            if el is None or el[0] == "closed":
                fail("time passes outside the entries of a sub-process", e)
            if is_done_event(e.val, el):
                return (ph, el, 1, runs)
            fail("waits for something else than the completion of the open sub-process", e)
        if e.kind in ("loop", "iter") and e.recv == SUBS:
            return (ph, None, 0, runs)
        if e.kind == "back" and e.recv == SUBS:
            if el is None or el[0] != "closed":
                # loops over the sub-processes for other purposes write nothing and wait for nothing
                if el is None and not _touched(e):
                    return (ph, None, 0, runs)
                fail("a sub-process run without its START and STOP entries", e)
            return (ph, None, 0, 2)
        if e.kind == "exhaust" and e.recv == SUBS:
            return (ph, None, 0, runs)
        if e.kind == "break" and e.recv == SUBS:
            fail("not every sub-process is run", e)
        return q

    def _touched(e):
        return False

    def at_exit(q, kind, val, s):
        pass

    ck.walk(G, (0, None, 0, 0), step, at_exit)
    return n[0] or fail("no sub-process entries found")


def runs_complete(ck, G):
    """Between the start signal and the end of each pass every sub-process is opened (a pass is not skipped)."""
    n = [0]

    def step(q, e):
        # q: 0 no signal, 1 signal given and no pass yet, 2 pass in progress, 3 pass complete
        if e.kind == "call" and e.name == "succeed" and e.recv is not None and e.recv[0] in ("attr", "vol", "res"):
            n[0] += 1
            return 1
        lg = log_call(e)
        if lg and sub_label(lg[4]) is not None and q == 1:
            return 2
        if e.kind == "exhaust" and e.recv == SUBS and q == 2:
            return 3
        if lg and lg[0] == SELF and plain(lg[4]) and lg[1] == "STOP":
            if q in (1, 2) and not known_empty(e.facts, SUBS):
                fail("a started pass over the sub-processes is not completed", e)
        return q

    ck.walk(G, 0, step)
    return n[0]


def parallel(ck, G):
    n = [0]

    again = rebuilt(G)

    def fin_fact(e, x):
        """is completion of x established by the branches taken?"""
        for a, v in e.facts.items():
            if not v or a[0] != "truth":
                continue
            t = a[1]
            if t[0] == "vol" and t[3] in ("triggered", "processed") and is_done_event(t[2], x):
                return True
        return False

    def step(q, e):
        ph, el, cnt, started, stop, pops = q
        lg = log_call(e)
        if lg and lg[0] == SELF:
            if plain(lg[4]):
                if lg[1] == "START":
                    return (1, None, 0, False, None, ())
                if lg[1] == "STOP":
                    ok = known_empty(e.facts, SUBS) or any(
                        (known_empty(e.facts, s)) for s in _sources(e.facts))
                    if not ok and again:
                        undecided("the sub-processes still awaited are collected again after every wait", e)
                    if not ok:
                        fail("the activity ends although STOP entries of sub-processes may be missing", e)
                    return (2, None, 0, started, None, ())
                return q
            x = elem_of_ref(sub_label(lg[4]))
            if x is None:
                if lg[1] in ("START", "STOP"):
                    r = sub_label(lg[4])
                    if r is not None and r[0] in ("phi", "unk", "junk"):
                        undecided("sub-process label cannot be resolved", e)
                    fail("own START/STOP entry whose label is not that of a sub-process", e)
                return q
            n[0] += 1
            check_log(e, what="sub-process entry")
            if lg[1] == "START":
                src = elem_source(x)
                if src is None or src[0] != SUBS or src[2] != 0:
                    fail(f"START entry labelled {T.show(x)}, not the current sub-process", e)
                if ph != 1 or cnt:
                    fail("second START entry of a sub-process", e)
                return (ph, x, 1, started, None, ())
            if lg[1] == "STOP":
                if not (x[0] in ("key", "at") and root_source(x[1]) == SUBS):
                    undecided("STOP entry of an unidentified sub-process", e)
                if not fin_fact(e, x):
                    fail(f"STOP entry of {T.show(x)} without its completion having been established", e)
                if stop is not None:
                    fail("more than one STOP entry for a finished sub-process", e)
                return (ph, el, cnt, started, x, pops)
            fail(f"sub-process entry with state {lg[1]}", e)
        if e.kind == "loop" and e.recv == SUBS:
            return (ph, None, 0, started, stop, pops)
        if e.kind == "iter" and e.recv == SUBS:
            return (ph, None, 0, started, stop, pops)
        if e.kind == "back" and e.recv == SUBS:
            return (ph, None, 0, started or (cnt == 1), stop, pops)
        if e.kind == "break" and e.recv == SUBS and cnt:
            fail("not every sub-process gets its START entry", e)
        if e.kind == "pop":
            return (ph, el, cnt, started, stop, pops + (e.val,) if len(pops) < 4 else pops)
        if e.kind in ("back", "break", "exhaust") and e.recv is None:
            if stop is not None and stop not in pops:
                fail("a sub-process stays among the awaited ones after its STOP entry", e)
            if stop is None and pops:
                fail("a sub-process is dropped without a STOP entry", e)
            return (ph, el, cnt, started, None, ())
        if e.kind == "yield" and ph == 1:
            ev = parsed(e.val)
            if ev is None:
                undecided("wait for an unidentified event", e)
            if not started and not known_empty(e.facts, SUBS):
                fail("waits before the START entries of the sub-processes", e)
            rem = any_of_all(ev)
            if rem is None or root_source(rem) != SUBS:
                fail("the wait is not for any of the remaining sub-processes: a STOP entry would be late", e)
            return (ph, el, cnt, started, None, ())
        return q

    def _sources(facts):
        out = set()
        for a in facts:
            for t in T_sub(a):
                if t[0] in ("some", "without") and root_source(t) == SUBS:
                    out.add(t)
        return out

    from lib import subterms as T_sub
    ck.walk(G, (0, None, 0, False, None, ()), step)
    return n[0] or fail("no sub-process entries found")


def any_of_all(ev):
    """ev == [{'or': [done(x) for x in S]}] -> S"""
    t = ev
    for _ in range(4):
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "item":
            t = t[1][0][1]
        elif t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "kv" and t[1][0][1] in (("str", "and"),):
            t = t[1][0][2]
    if t[0] != "dict" or len(t[1]) != 1 or t[1][0][1] != ("str", "or"):
        return None
    v = t[1][0][2]
    if v[0] == "list" and len(v[1]) == 1:
        s = v[1][0]
        if s[0] == "each" and not s[3] and s[2][0] == "item" and unwrap_expr(s[2][1]) in done_exprs(("bv",)):
            return s[1]
    return None


def ordered(e):
    e.sets = True      # a loop over set(xs) is not one over xs


def run(ck):
    for q, kind in structural(ck):
        if kind == "sequential":
            ck.ob("sub-process entries", short(q), lambda: sequential(ck, ck.activity(q, setup=ordered)))
            ck.ob("complete passes", short(q), lambda: runs_complete(ck, ck.activity(q)))
        else:
            ck.ob("sub-process entries", short(q), lambda: parallel(ck, ck.activity(q)))
