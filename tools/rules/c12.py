"""Must-pass automaton over the delayed start of every activity kind.

On every path to the main process the parent's event is awaited first (unless the activity has none), then the own
start event (unless it is None), and nothing else is awaited.  On the branch where simulation time passed during the
wait for the own event, and only there, WAIT_START (at the time read before that wait) and WAIT_STOP (at the current
time) are written once to the activity and once to every element of additional_logs.  The main process runs exactly
once, with the activity and its environment.
"""

import terms as T
from lib import ENV, SELF, attr, expect, fail, imprecise, undecided
from rules.common import SELF_ID, activities, elem_source, known_empty, log_call, now, parsed, short

LEVEL = "other"
PARENT, OWN, ADD = attr(SELF, "start_event_parent"), attr(SELF, "start_event"), attr(SELF, "additional_logs")
BOTH = frozenset(("WAIT_START", "WAIT_STOP"))


def has_attr(facts, name):
    if facts.get(T.isnone(attr(SELF, name))) is True:
        return False
    for a, v in facts.items():
        if a[0] == "hasattr" and a[1] == SELF and a[2] in (name, ("str", name)):
            return v
    return None


def no_own(facts):
    if facts.get(T.isnone(OWN)) is True or facts.get(T.truth(OWN)) is False:
        return True
    return any(v and a[0] == "isnone" and parsed(a[1]) == OWN for a, v in facts.items())


def start(ck, G):
    n = [0]

    # parent awaited, own awaited, time at which the own wait began, own entries, entries in every additional log,
    # entries of the open iteration, main process runs
    def step(q, e):
        par, own, t0, mine, extra, cur, runs = q
        if own and t0[1] is None and elapsed(e, t0[0]) is not None:
            t0 = (t0[0], elapsed(e, t0[0]))       # the branch on whether time passed
            q = (par, own, t0, mine, extra, cur, runs)
        if any(v and a[0] == "isnone" and parsed(a[1]) is not None for a, v in e.facts.items()):
            return None       # parse_expression never returns None (C13)
        if e.kind == "yield":
            x = parsed(e.val)
            if x is None and e.val in (PARENT, OWN):
                x = e.val
            if x == PARENT:
                if own:
                    fail("the parent's event is awaited after the own start event", e)
                if par:
                    fail("the parent's event is awaited twice", e)
                return (True, own, t0, mine, extra, cur, runs)
            if x == OWN:
                if not par and has_attr(e.facts, "start_event_parent") is not False:
                    fail("the own start event is awaited before the parent's event", e)
                if own:
                    fail("the own start event is awaited twice", e)
                return (par, True, (e.now, None), mine, extra, cur, runs)
            if imprecise(e.val):
                undecided("an unidentified event is awaited before the start", e)
            fail(f"something else than the start events is awaited: {T.show(e.val)[:120]}", e)
        if e.kind == "yieldfrom":
            if e.name == "main_process_function" and e.recv == SELF:
                n[0] += 1
                if runs:
                    fail("the main process runs twice", e)
                if not par and has_attr(e.facts, "start_event_parent") is not False:
                    fail("work starts without waiting for the parent's event", e)
                if not own and not no_own(e.facts):
                    fail("work starts without waiting for the start event", e)
                expect(e.arg("env"), [ENV, attr(SELF, "env")], "environment of the main process", e)
                expect(e.arg("activity_log"), SELF, "log of the main process", e)
                check_entries(e, q)
                return (par, own, t0, mine, extra, cur, True)
            undecided("another process is run before the start", e) if imprecise(e.recv or SELF) else fail(
                f"{e.name} is run as part of the delayed start", e)
        lg = log_call(e)
        if lg:
            r, st = lg[0], lg[1]
            if st not in BOTH:
                undecided("entry with an unidentified state", e) if st is None else fail(
                    f"{st} entry in the delayed start", e)
            if runs:
                fail("waiting is logged after the work", e)
            if not own:
                fail("waiting is logged before the wait for the own start event", e)
            expect(e.arg("activity_id"), SELF_ID, f"activity id of the {st} entry", e)
            expect(e.arg("t"), ("now", t0[0]) if st == "WAIT_START" else now(e), f"time of the {st} entry", e)
            n[0] += 1
            if r == SELF:
                if st in mine:
                    fail(f"second {st} entry", e)
                if st == "WAIT_STOP" and "WAIT_START" not in mine:
                    fail("WAIT_STOP entry before the WAIT_START entry", e)
                return (par, own, t0, mine | {st}, extra, cur, runs)
            src = elem_source(r)
            if src is not None and src[0] == ADD and src[2] == 0:
                if st in cur or st in extra:
                    fail(f"second {st} entry in an additional log", e)
                return (par, own, t0, mine, extra, cur | {st}, runs)
            undecided("entry in an unidentified log", e) if imprecise(r) else fail(
                f"waiting is logged on {T.show(r)[:80]}", e)
        if e.kind == "iter" and e.recv == ADD:
            return (par, own, t0, mine, extra, frozenset(), runs)
        if e.kind == "back" and e.recv == ADD:
            return (par, own, t0, mine, extra, ("all", cur if isinstance(cur, frozenset) else frozenset()), runs)
        if e.kind == "exhaust" and e.recv == ADD:
            if isinstance(cur, tuple):
                extra = extra | cur[1]
            return (par, own, t0, mine, extra, frozenset(), runs)
        if e.kind == "break" and e.recv == ADD:
            fail("not every additional log is served", e)
        return q

    def elapsed(e, t0):
        """Do the branches say whether time has passed since t0?"""
        passed = e.facts.get(T.lt0(T.sub(("now", t0), now(e))))
        if passed is None:
            for z in (T.eq0(T.sub(now(e), ("now", t0))), T.eq0(T.sub(("now", t0), now(e))), T.eq(now(e), ("now", t0))):
                if z in e.facts:
                    return not e.facts[z]
            if e.facts.get(T.lt0(T.sub(now(e), ("now", t0)))) is False:
                return None
        return passed

    def check_entries(e, q):
        par, own, t0, mine, extra, cur, runs = q
        if not own:
            if mine or extra:
                fail("waiting is logged although there is no own start event", e)
            return
        passed = t0[1]
        if passed is True:
            if mine != BOTH:
                fail("waiting time passed, but it is not logged by " + ", ".join(sorted(BOTH - mine)), e)
            if extra != BOTH and not known_empty(e.facts, ADD) and has_attr(e.facts, "additional_logs") is not False:
                fail("waiting time is not logged in every additional log", e)
        elif passed is False:
            if mine or extra:
                fail("waiting is logged although no time passed", e)
        else:
            fail("waiting is logged without regard to whether time passed" if mine else
                 "waiting for the own start event is not logged", e)

    def at_exit(q, kind, val, s):
        if kind == "return" and not q[6]:
            fail("a path ends without running the main process")
    ck.walk(G, (False, False, None, frozenset(), frozenset(), frozenset(), False), step, at_exit)
    return n[0] or fail("the main process is never run")


def run(ck):
    for q in activities(ck):
        ck.ob("delayed start", short(q), lambda: start(ck, ck.graph(q, "delayed_process",
                                                                    {"activity_log": SELF, "env": ENV})))
