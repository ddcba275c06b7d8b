"""Effect summary of register_process for every activity kind.

On every path that returns: done_event is a fresh event; a start signal the activity has is renewed exactly on the
branches that found it used; the container reservation (if the kind has one) is booked once; exactly one process is
started, running the activity's delayed_process with its own log and environment and stored as main_process; and the
activity is added once to the registry under its name and under its id, where a registry entry is created only on
branches that found it missing and nothing is removed.  Every path of delayed_process runs the activity exactly once.
"""

import terms as T
from lib import ENV, SELF, attr, expect, fail, imprecise, subterms, undecided
from rules.chain import is_fresh_event
from rules.common import activities, short

LEVEL = "other"
REG = attr(SELF, "registry")
KEYS = {"name": attr(SELF, "name"), "id": attr(SELF, "id")}
SIGNALS = ("start_sequence", "start_parallel")
GROW = ("add",)
SHRINK = ("clear", "pop", "popitem", "discard", "remove", "difference_update", "intersection_update",
          "symmetric_difference_update")


def table(t):
    """'name' / 'id' when t is that table of the registry."""
    if t[0] == "key" and t[1] == REG and t[2][0] == "str":
        return t[2][1]
    return None


def in_registry(t):
    while isinstance(t, tuple) and t[0] in ("key", "attr", "stale", "vol"):
        if t == REG:
            return True
        t = t[2] if t[0] == "vol" else t[1]
    return False


def absent(facts, key, where):
    if facts.get(("in", key, where)) is False:
        return True
    return facts.get(T.isnone(("key", where, key))) is True


def entry(t):
    """'name'/'id' when t is the registry's set of the activities with this name/id."""
    if t[0] == "key" and table(t[1]) in KEYS and t[2] == KEYS[table(t[1])]:
        return table(t[1])
    return None


def used(facts, signal):
    """(has the signal?, was it used?)"""
    has = facts.get(("hasattr", SELF, signal))
    if facts.get(T.isnone(attr(SELF, signal))) is True:
        has = False
    was = None
    for a, v in facts.items():
        if a[0] == "truth" and a[1][0] == "vol" and a[1][3] in ("processed", "triggered") and a[1][2] == attr(
                SELF, signal):
            was = v
    return has, was


def registers(ck, q):
    has_reservation = ck.prog.classes[q].lookup("make_container_reservation") is not None
    G = ck.graph(q, "register_process")
    n = [0]

    # state: done event, renewed signals, reservations, (body, process), stored main, registered in
    def step(s, e):
        done, renewed, res, body, proc, main, regs = s
        if e.kind == "setattr" and e.recv == SELF:
            if e.name == "done_event":
                if not is_fresh_event(e.val):
                    undecided("done_event", e) if imprecise(e.val) else fail(
                        f"done_event is set to {T.show(e.val)[:80]}, not a fresh event", e)
                return (True,) + s[1:]
            if e.name in SIGNALS:
                if not is_fresh_event(e.val):
                    undecided(e.name, e) if imprecise(e.val) else fail(
                        f"{e.name} is set to {T.show(e.val)[:80]}, not a fresh event", e)
                has, was = used(e.facts, e.name)
                if was is False:
                    fail(f"{e.name} is replaced although it was not used: the sub-processes wait for the old one", e)
                if was is None:
                    if any(T.mentions(a, attr(SELF, e.name)) and imprecise(a) for a in e.facts):
                        undecided(f"when {e.name} is renewed", e)
                    fail(f"{e.name} is replaced without checking that it was used", e)
                return (done, renewed | {e.name}, res, body, proc, main, regs)
            if e.name == "main_process":
                n[0] += 1
                if proc is None or e.val != proc:
                    undecided("main_process", e) if imprecise(e.val) else fail(
                        f"main_process is set to {T.show(e.val)[:100]}, not the started process", e)
                return (done, renewed, res, body, proc, True, regs)
            if e.name == "registry":
                fail("the registry is replaced", e)
            return s
        if e.kind == "call" and e.name == "make_container_reservation" and e.recv == SELF:
            if res:
                fail("the container reservation is booked twice", e)
            return (done, renewed, True, body, proc, main, regs)
        if e.kind == "call" and e.name == "delayed_process":
            expect(e.recv, SELF, "the activity whose delayed_process is used", e)
            for k, want in (("activity_log", SELF), ("env", ENV)):
                v = e.arg(k)
                if v not in (want, attr(SELF, "env") if k == "env" else want):
                    expect(v, want, f"{k} of delayed_process", e)
            return (done, renewed, res, e.res, proc, main, regs)
        if e.kind in ("call", "new") and (e.name in ("process", "Process")):
            g = e.arg("generator")
            if g is None and e.args:
                g = next((v for v in e.args.values() if v == body), None)
            if proc is not None:
                fail("more than one process is started", e)
            if body is None or g != body:
                if g is not None and g[0] == "res" and g[2] == "main_process_function":
                    fail("the process skips waiting for the start events", e)
                undecided("the started process", e) if g is None or imprecise(g) else fail(
                    f"the started process runs {T.show(g)[:100]}", e)
            return (done, renewed, res, body, e.res, main, regs)
        if e.kind == "mutate" and entry(e.recv):
            k = entry(e.recv)
            if e.name == "add" and SELF in e.args.values():
                n[0] += 1
                return (done, renewed, res, body, proc, main, regs | {k})
            if e.name == "add":
                undecided("registered activity", e) if any(imprecise(v) for v in e.args.values()) else fail(
                    "something else is registered under the activity's " + k, e)
            if e.name == "update" or e.name == "__ior__":
                for v in e.args.values():
                    if v[0] in ("set", "list", "tuple") and ("item", SELF) in v[1]:
                        return (done, renewed, res, body, proc, main, regs | {k})
            if e.name in SHRINK:
                fail("registry entries are dropped", e)
            undecided("registry change", e)
        if e.kind in ("delitem", "pop") and in_registry(e.recv or e.val):
            fail("registry entries are dropped", e)
        if e.kind == "mutate" and in_registry(e.recv):
            if e.name in SHRINK:
                fail("registry entries are dropped", e)
            undecided("registry change", e)
        if e.kind == "setitem" and in_registry(e.recv):
            key = e.arg("key")
            if e.recv == REG and key in (("str", "name"), ("str", "id")):
                if not absent(e.facts, key, REG) and e.val[0] in ("dict",) and not any(x[0] == "splat" for x in e.val[1]):
                    fail(f"the registry's table {T.show(key)} is replaced although it exists", e)
                if e.val == ("dict", ()):
                    return s
                undecided("registry table", e)
            k = table(e.recv)
            if k in KEYS and key == KEYS[k]:
                gone = absent(e.facts, key, e.recv) or absent(e.facts, ("str", k), REG)
                v = e.val
                if v[0] not in ("set", "list"):
                    undecided("registry entry", e)
                keeps = gone or any(x[0] == "splat" and x[1] in (("key", e.recv, key),) for x in v[1])
                if not keeps:
                    if any(x[0] == "splat" for x in v[1]):
                        undecided("registry entry", e)
                    fail("other activities registered under the same " + k + " are dropped", e)
                if ("item", SELF) in v[1]:
                    n[0] += 1
                    return (done, renewed, res, body, proc, main, regs | {k})
                return s
            if k in KEYS or table(e.recv):
                fail(f"the activity is registered in the table of {k}s under {T.show(key)[:80]}", e)
            undecided("registry change", e)
        if e.kind in ("yield", "yieldfrom"):
            fail("registering takes simulation time", e)
        return s

    def at_exit(s, kind, val, st):
        done, renewed, res, body, proc, main, regs = s
        if kind != "return":
            return
        if not done:
            fail("done_event is not renewed")
        if has_reservation and not res:
            fail("the container reservation is not booked")
        if proc is None:
            fail("no process is started")
        if not main:
            fail("the started process is not stored as main_process")
        for k in KEYS:
            if k not in regs:
                fail(f"the activity is not registered under its {k}")
        for sig in SIGNALS:
            has, was = used(st.facts, sig)
            if has is not False and sig not in renewed and was is not False:
                if has is None and not any(T.mentions(a, sig) or T.mentions(a, ("str", sig)) for a in st.facts):
                    if sig in ck_signals(ck, q):
                        fail(f"{sig} is not renewed when it was used")
                    continue
                if has is None:
                    undecided(f"when {sig} is renewed")
                fail(f"{sig} is not renewed when it was used")

    ck.walk(G, (False, frozenset(), False, None, None, False, frozenset()), step, at_exit)
    return n[0]


def ck_signals(ck, q):
    """Start signals an activity of this kind has: those its registration functions set."""
    from rules.chain import REG as CH
    out = set()
    for m, sig in CH.values():
        f = ck.prog.classes[q].lookup(m)
        if f is not None:
            out.add(sig)
    return out


def once(ck, q):
    """The process of a registration runs the main process function exactly once."""
    G = ck.graph(q, "delayed_process", {"activity_log": SELF, "env": ENV})

    def step(s, e):
        if e.kind == "yieldfrom" and e.name == "main_process_function" and e.recv == SELF or \
                e.kind == "call" and e.name == "process" and any(
                    u[0] in ("res", "gen") and "main_process_function" in str(u[1:3]) for a in e.args.values()
                    for u in subterms(a)):
            if s:
                fail("one registration runs the activity twice", e)
            return s + 1
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s:
            fail("one registration need not run the activity")
    ck.walk(G, 0, step, at_exit)
    return 1


def run(ck):
    for q in activities(ck):
        ck.ob("registration", short(q), lambda: registers(ck, q))
        ck.ob("one run per registration", short(q), lambda: once(ck, q))
