"""Start chains of structural activities (shared by C09, C10, C11)."""

import terms as T
from lib import ENV, SELF, attr, fail, imprecise, undecided
from model import AnalysisBroken
from rules.common import (SUBS, done_exprs, elem_source, is_done_event, known_empty, log_call, plain, root_source,
                          unwrap_expr)

REG = {"sequential": ("register_sequential_subprocesses", "start_sequence"),
       "parallel": ("register_parallel_subprocesses", "start_parallel")}
REGNAMES = ("register_sequential_subprocesses", "register_parallel_subprocesses", "register_subprocesses")


def is_fresh_event(v):
    return v[0] == "res" and v[2] == "event"


def has_subs_fact(facts, x):
    """Do the facts say whether x has sub-processes to set up? True / False / None."""
    for a, v in facts.items():
        if a[0] == "hasattr" and a[1] == x and a[2] in REGNAMES + (("str", "register_subprocesses"),):
            return v
        if a[0] == "isinstance" and a[1] == x and "RegisterSubProcesses" in repr(a[2]):
            return v
        if a[0] == "truth" and a[1][0] in ("getattr", "call") and x in a[1] and "register_subprocesses" in repr(a[1]):
            return v
    return None


def position(x):
    """("elem", loop, shift) of a loop element of the sub-processes, ("index", k) of a direct access, else None."""
    shift = 0
    if x[0] == "at" and len(x) == 4:
        X, L, shift = x[1], x[2], x[3]
        if X[0] == "slice" and X[2][0] == "num" and X[2][1] >= 0 and X[3] == T.NONE and X[4] in (T.NONE, T.num(1)):
            X, shift = X[1], shift + int(X[2][1])
        return ("elem", L, shift) if X == SUBS else None
    if x[0] == "key" and x[1] == SUBS and x[2] == T.num(0):
        return ("index", 0)
    return None


def coverage(X):
    """Which sub-processes does a loop over X meet, as shift of the element it is at? (shift, reaches the last) or None."""
    if X == SUBS:
        return 0, True
    if X[0] == "pairs" and X[1] == SUBS:
        return None                # both elements: see position
    if X[0] == "slice" and X[1] == SUBS and X[3] == T.NONE and X[4] in (T.NONE, T.num(1)):
        if X[2] in (T.NONE, T.num(0)):
            return 0, True
        if X[2] == T.num(1):
            return 1, True
    return None


def list_length(X):
    """(number of sub-processes left out) when X has as many elements as there are sub-processes but some, or 'inf'."""
    if X == SUBS:
        return 0
    if X[0] == "slice" and X[1] == SUBS and X[4] in (T.NONE, T.num(1)):
        if X[2] in (T.NONE, T.num(0)) and X[3][0] == "num" and X[3][1] < 0:
            return int(-X[3][1])
        if X[2][0] == "num" and X[2][1] >= 0 and X[3] == T.NONE:
            return int(X[2][1])
    if X[0] == "list":
        n = None
        add = 0
        for s in X[1]:
            if s[0] == "item":
                add += 1
            elif s[0] in ("each", "splat") and (s[0] == "splat" or not s[3] and s[2][0] == "item") and n is None:
                n = list_length(s[1])
                if n is None:
                    return None
            else:
                return None
        return None if n is None else max(n - add, 0) if n != "inf" else n
    return None


def resolve(v, L, first):
    """The value of an element of a list built from one item and one entry per sub-process, at the first / a later index."""
    if v[0] == "at" and v[2] == L and v[1][0] == "list" and v[3] == 0:
        items = v[1][1]
        if items and items[0][0] == "item":
            if first:
                return items[0][1]
            if len(items) >= 2 and items[1][0] == "each" and not items[1][3] and items[1][2][0] == "item":
                n = list_length(items[1][1])
                src = items[1][1]
                base = src[1] if src[0] == "slice" and src[2] in (T.NONE, T.num(0)) else src
                if n is not None and base == SUBS:
                    return T.inst(items[1][2][1], ("at", SUBS, L, -1))
        elif len(items) == 1 and items[0][0] == "each" and not items[0][3] and items[0][2][0] == "item" and items[0][1] == SUBS:
            return T.inst(items[0][2][1], ("at", SUBS, L, 0))
    return v


def about_subs(X):
    from lib import subterms
    return X is not None and any(t == SUBS for t in subterms(X))


def registration(ck, G, kind):
    """Every sub-process gets its start signal of the chain and nested activities are set up."""
    signal = REG[kind][1]
    n = [0]

    def judge(v, first, prev, e, stored):
        """Is v the right start signal for the first / another sub-process? Returns the event used, if one."""
        if first and kind == "sequential" and not is_fresh_event(v) and v == attr(SELF, signal):
            fail("the first sub-process gets the start signal of a previous registration", e)
        if is_fresh_event(v):
            if kind == "sequential" and not first:
                fail("a sub-process that is not the first gets the start signal of the activity", e)
            return v
        if kind == "parallel":
            if v == attr(SELF, signal):
                fail("a parallel sub-process gets the start signal of a previous registration", e)
            if imprecise(v):
                undecided(f"start signal {T.show(v)[:80]}", e)
            fail(f"a parallel sub-process waits for {T.show(v)[:120]} instead of the start signal", e)
        if imprecise(v):
            undecided(f"start signal {T.show(v)[:80]}", e)
        if first:
            fail("the first sub-process does not get the start signal of the activity", e)
        if prev is None or not (unwrap_expr(v) in done_exprs(prev) or is_done_event(v, prev)):
            fail(f"a sub-process waits for {T.show(v)[:160]}, not for the completion of its direct predecessor", e)
        return None

    def same_used(used, v, e):
        if v is not None and used is not None and used != v:
            fail("sub-processes of one activity get different start signals", e)
        return v if v is not None else used

    # stored, used; open loops ((L, first iteration?, elements met by this iteration, set shifts, nested shifts, missed sets,
    # missed nests)...); done: sub-processes ("first", "rest") with a start signal / set up; odd: a construct not understood
    def step(q, e):
        stored, used, loops, sets, nests, odd = q
        if e.kind == "setattr" and e.recv == SELF and e.name == signal:
            if not is_fresh_event(e.val):
                if imprecise(e.val):
                    undecided(f"{signal} is set to an unidentified value", e)
                fail(f"{signal} is not set to a fresh event", e)
            return (e.val, used, loops, sets, nests, odd)
        if e.kind == "loop":
            return (stored, used, tuple(l for l in loops if l[0] != e.site) + ((e.site, None, (), (), (), False, False),), sets, nests, odd)
        if e.kind == "iter":
            out = []
            for l in loops:
                if l[0] == e.site:
                    out.append((l[0], l[1] is None, (), (), (), l[5], l[6]))
                else:
                    out.append(l)
            return (stored, used, tuple(out), sets, nests, odd)
        mine = [l for l in loops if l[1] is not None]
        if e.kind == "setattr" and e.name == "start_event_parent":
            n[0] += 1
            pos = position(e.recv)
            if pos is None:
                if about_subs(e.recv) or imprecise(e.recv):
                    undecided("start signal set on an unidentified sub-process", e)
                fail(f"a start signal is set on {T.show(e.recv)[:80]}", e)
            if pos[0] == "index":
                used = same_used(used, judge(e.val, True, None, e, stored), e)
                return (stored, used, loops, sets | {"first"}, nests, odd)
            L, sh = pos[1], pos[2]
            cur = [l for l in mine if l[0] == L]
            if not cur or sh < 0:
                undecided("start signal set outside an iteration over the sub-processes", e)
            first = cur[0][1] and sh == 0
            v = resolve(e.val, L, first)
            used = same_used(used, judge(v, first, ("at", SUBS, L, sh - 1), e, stored), e)
            loops = tuple((l[0], l[1], l[2], l[3] + ((sh,) if sh not in l[3] else ()), *l[4:]) if l[0] == L else l for l in loops)
            return (stored, used, loops, sets, nests, odd)
        if e.kind == "call" and e.name in REGNAMES and e.recv != SELF:
            pos = position(e.recv)
            if pos is None:
                if not (about_subs(e.recv) and e.recv[0] == "at"):
                    undecided("nested registration of an unidentified activity", e)
                return q
            if pos[0] == "index":
                return (stored, used, loops, sets, nests | {"first"}, odd)
            L, sh = pos[1], pos[2]
            loops = tuple((*l[:4], l[4] + ((sh,) if sh not in l[4] else ()), *l[5:]) if l[0] == L else l for l in loops)
            return (stored, used, loops, sets, nests, odd)
        if e.kind == "back":
            out = []
            for l in loops:
                if l[0] == e.site and l[1] is not None:
                    sh = shift_of(e.recv)
                    if sh is None:
                        odd = odd or about_subs(e.recv)
                        out.append(l)
                        continue
                    miss = l[5] or not any(s in l[3] for s in sh)
                    nm = l[6] or not any(s in l[4] or has_subs_fact(e.facts, elem_at(e.recv, e.site, s)) is False for s in sh)
                    out.append((l[0], False, (), (), (), miss, nm))
                else:
                    out.append(l)
            return (stored, used, tuple(out), sets, nests, odd)
        if e.kind == "exhaust":
            for l in loops:
                if l[0] == e.site:
                    sh = shift_of(e.recv)
                    if sh is None:
                        odd = odd or about_subs(e.recv)
                        continue
                    part = {"rest"} | ({"first"} if 0 in sh and len(sh) == 1 else set())
                    if not l[5]:
                        sets = sets | part
                    if not l[6]:
                        nests = nests | part
            return (stored, used, tuple(l for l in loops if l[0] != e.site), sets, nests, odd)
        if e.kind == "break":
            return (stored, used, tuple(l for l in loops if l[0] != e.site), sets, nests, odd)
        return q

    def shift_of(X):
        """The shifts of the sub-processes an iteration over X is at, when the loop meets all of them but the first."""
        if X is None:
            return None
        c = coverage(X)
        if c is not None:
            return (c[0],)
        if X[0] == "pairs" and X[1] == SUBS:
            return (1,)
        if X[0] == "zip" and X[1] and all(list_length(y) is not None for y in X[1]):
            left = max((list_length(y) for y in X[1] if list_length(y) != "inf"), default=0)
            for y in X[1]:
                c = coverage(y)
                if c is not None and list_length(y) == left:
                    return (c[0],)
        return None

    def elem_at(X, L, s):
        if X == SUBS or X[0] in ("pairs", "zip"):
            return ("at", SUBS, L, s)
        return ("at", X, L, 0)

    def at_exit(q, kind_, val, s):
        stored, used, loops, sets, nests, odd = q
        if kind_ != "return":
            return
        if stored is None:
            fail(f"{signal} is not renewed")
        if used is not None and used != stored:
            fail(f"the sub-processes do not get the event stored as {signal}")
        if known_empty(s.facts, SUBS):
            return
        for have, what in ((sets, "gets a start signal"), (nests, "that is a structural activity is set up")):
            if have < {"first", "rest"}:
                if odd:
                    undecided("a loop over the sub-processes is not understood")
                fail(f"not every sub-process {what}")
    ck.walk(G, (None, None, (), frozenset(), frozenset(), False), step, at_exit)
    return n[0] or fail("no start signals are set")


def is_attr_signal(v, signal):
    return v == attr(SELF, signal)


def bound_registration(ck, q):
    """The function that the activity's register_subprocesses denotes."""
    G = ck.graph(q, "__init__")
    for es in G.out:
        for e, _ in es:
            if e is not None and e.kind == "setattr" and e.recv == SELF and e.name == "register_subprocesses":
                if e.val[0] == "bound" and e.val[1] == SELF:
                    return e.val[2]
                undecided("register_subprocesses is set to something unidentified", e)
    c = ck.prog.classes[q]
    if c.lookup("register_subprocesses") is not None:
        return "register_subprocesses"
    fail(f"{q} has no register_subprocesses")


def constructor(ck, q, kind):
    """The constructor stores the sub-processes and sets up the chain exactly once, when the environment is known."""
    G = ck.graph(q, "__init__")
    n = [0]

    def step(st, e):
        sup, subs, reg = st
        if e.kind == "call" and e.name == "__init__":
            return (True, subs, reg)
        if e.kind == "setattr" and e.recv == SELF and e.name == "sub_processes":
            if e.val != ("param", "sub_processes"):
                undecided("sub_processes stored as something else", e) if imprecise(e.val) else fail(
                    f"sub_processes is stored as {T.show(e.val)[:120]}", e)
            return (sup, True, reg)
        if e.kind == "call" and e.name in REGNAMES and e.recv == SELF:
            n[0] += 1
            if not sup or not subs:
                fail("the start chain is set up before the activity is initialised", e)
            if reg:
                fail("the start chain is set up twice", e)
            if e.name not in ("register_subprocesses", REG[kind][0]):
                fail(f"{e.name} used by a {kind} activity", e)
            return (sup, subs, True)
        return st

    def at_exit(st, k, v, s):
        if k == "return" and not st[2]:
            fail("the constructor does not set up the start chain")
    ck.walk(G, (False, False, False), step, at_exit)
    return n[0]


def all_done(v):
    """Does the event mean that every sub-process is done?"""
    from rules.common import parsed
    e = parsed(v)
    if e is None:
        return False
    u = e
    for _ in range(3):
        if u[0] == "list" and len(u[1]) == 1 and u[1][0][0] == "item":
            u = u[1][0][1]
        elif u[0] == "dict" and len(u[1]) == 1 and u[1][0][0] == "kv" and u[1][0][1] == ("str", "and"):
            u = u[1][0][2]
    if u[0] == "list" and len(u[1]) == 1 and u[1][0][0] == "each":
        s = u[1][0]
        return s[1] == SUBS and not s[3] and s[2][0] == "item" and unwrap_expr(s[2][1]) in done_exprs(("bv",))
    return False


def rebuilt(G):
    """Are the sub-processes still awaited found by building the list again (and not by removing from it)?"""
    from lib import subterms
    for es in G.out:
        for e, _ in es:
            for a in (e.facts if e is not None else ()):
                for t in subterms(a):
                    if isinstance(t, tuple) and len(t) > 1 and t[0] == "list" and any(
                            s[0] == "each" and s[3] and root_source(s[1]) == SUBS for s in t[1] if isinstance(s, tuple)):
                        return True
    return False


def signal_and_end(ck, G, kind):
    """One start signal per pass after the own START; the pass and the own STOP only after every sub-process is done."""
    signal = attr(SELF, REG[kind][1])
    n = [0]
    again = rebuilt(G)

    # state: phase 0/1/2, pass: None | "open" | "done", elem of open iteration, awaited in it
    def step(q, e):
        ph, ps, el, aw = q
        lg = log_call(e)
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "pre_process" and ph == 0:
            return ("ready", None, None, False)
        if e.kind in ("yield", "yieldfrom") and ph == "early":
            fail("the start signal is given before the activity has started", e)
        if lg and lg[0] == SELF and plain(lg[4]):
            if lg[1] == "START":
                return (1, "open" if ph == "early" else None, None, False)
            if lg[1] == "STOP":
                if ps is None and not known_empty(e.facts, SUBS):
                    fail("the activity ends without having signalled its sub-processes", e)
                if ps == "open" and not known_empty(e.facts, SUBS) and not drained(e.facts):
                    if again:
                        undecided("the sub-processes still awaited are collected again after every wait", e)
                    fail("the activity ends before every sub-process is done", e)
                return (2, None, None, False)
        if e.kind == "call" and e.name == "succeed":
            r = e.recv
            if r == signal or (r[0] in ("vol", "stale") and T.mentions(r, signal)):
                n[0] += 1
                if ph == "ready" and ps is None:
                    return ("early", "open", None, False)
                if ph != 1:
                    fail("the start signal is given before the activity has started or after its end", e)
                if ps == "open" and not known_empty(e.facts, SUBS):
                    fail("the start signal is given again before every sub-process is done", e)
                if ps is not None and e.facts.get(("x",)):
                    pass
                return (ph, "open", None, False)
            if imprecise(r):
                undecided("an unidentified event is triggered", e)
            return q
        if ph == 1 and ps == "open":
            if e.kind == "iter" and e.recv == SUBS:
                return (ph, ps, e.arg("elem"), False)
            if e.kind == "yield":
                if el is not None and is_done_event(e.val, el):
                    return (ph, ps, el, True)
                if all_done(e.val):
                    return (ph, "done", el, aw)
                return q
            if e.kind == "back" and e.recv == SUBS and el is not None:
                return (ph, ps, ("each", aw), False)
            if e.kind == "exhaust" and e.recv == SUBS and el is not None and el[0] == "each" and el[1]:
                return (ph, "done", None, False)
        return q

    def drained(facts):
        """the collection of sub-processes still awaited is empty"""
        from lib import subterms
        for a in facts:
            for t in subterms(a):
                if t[0] in ("some", "without") and root_source(t) == SUBS and known_empty(facts, t):
                    return True
        return False

    ck.walk(G, (0, None, None, False), step)
    return n[0] or fail("the start signal is never given")


def removed_only_done(ck, G):
    """What is removed from the awaited sub-processes has been found done."""
    n = [0]

    def step(q, e):
        if e.kind == "pop":
            x = e.val
            if x[0] in ("key", "at") and root_source(x[1]) == SUBS:
                n[0] += 1
                for a, v in e.facts.items():
                    if v and a[0] == "truth" and a[1][0] == "vol" and a[1][3] in ("processed", "triggered") and \
                            is_done_event(a[1][2], x):
                        return q
                fail(f"{T.show(x)[:100]} is no longer awaited although it was not found done", e)
            elif x[0] != "key" or root_source(x[1]) != SUBS:
                undecided("something unidentified is removed from the awaited sub-processes", e) if imprecise(x) else 0
        return q
    ck.walk(G, 0, step)
    return n[0]


def parent_first(ck, G):
    """On every path to the work of an activity its parent's event was awaited, unless it has none."""
    from rules.common import parsed
    PARENT = attr(SELF, "start_event_parent")
    n = [0]

    def has_parent(facts):
        if facts.get(T.isnone(PARENT)) is True:
            return False
        for a, v in facts.items():
            if a[0] == "hasattr" and a[1] == SELF and a[2] in ("start_event_parent", ("str", "start_event_parent")):
                return v
        return None

    def step(q, e):
        if e.kind == "yield" and (parsed(e.val) == PARENT or e.val == PARENT):
            return 1
        if e.kind in ("yieldfrom", "call") and e.name == "main_process_function" and e.recv == SELF:
            n[0] += 1
            if not q and has_parent(e.facts) is not False:
                fail("work starts without waiting for the start signal of the chain", e)
        if e.kind == "yield" and imprecise(e.val) and parsed(e.val) is None and not q:
            undecided("an unidentified event is awaited before the start", e)
        return q
    ck.walk(G, 0, step)
    return n[0] or fail("the main process is never run")


def common(ck):
    """What start chains of every kind rest on: the wait for the signal, and what "activity is done" means."""
    from rules import c13
    from rules.common import activities, short
    for q in activities(ck):
        ck.ob("the signal is awaited", short(q), lambda: parent_first(ck, ck.graph(q, "delayed_process",
                                                                                  {"activity_log": SELF, "env": ENV})))
    ck.ob("completion of an activity", "parse_expression", lambda: c13.denotation(ck, only=("activity", "list")))
