"""Typestate automaton over the effect graph of every activity kind.

Phases: before pre-processing, after it, between START and STOP, after STOP, after post-processing.  On every path to a
normal return exactly one own START and STOP entry is written, with the activity's id and the current time; whatever
passes time and is neither plugin nor resource/level waiting lies between them.  The travel of Movable.move and the
transfer of Processor.process are inlined into the activities and must log the same pair on the mover, respectively on
each distinct object involved; BasicActivity repeats the pair in every element of additional_logs.
"""

import terms as T
from lib import CONFIGS, D_, ENV, O_, P_, SELF, attr, d, expect, fail, undecided
from rules.common import (SELF_ID, activities, check_log, is_work, known_empty, label_ref, log_call, now, plain, short)

LEVEL = "other"


def bracket(ck, G):
    seen = [0]

    def step(q, e):
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "pre_process":
            return 1 if q == 0 else fail("pre-processing after the START entry (or twice)", e) if q > 1 else 1
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "post_process":
            if q < 3:
                fail("post-processing before the STOP entry", e)
            return 4
        lg = log_call(e)
        if lg and lg[0] == SELF and plain(lg[4]):
            st = lg[1]
            if st is None:
                undecided("own log entry with a state that is not a literal LogState", e)
            if st == "START":
                seen[0] += 1
                if q == 0:
                    fail("START entry before pre-processing", e)
                if q >= 2:
                    fail("second own START entry in one execution", e)
                check_log(e, what="START entry")
                return 2
            if st == "STOP":
                seen[0] += 1
                if q < 2:
                    fail("STOP entry before the START entry", e)
                if q >= 3:
                    fail("second own STOP entry in one execution", e)
                check_log(e, what="STOP entry")
                return 3
            fail(f"own {st} entry without a label in the activity's work", e)
        if lg and lg[0] != SELF and lg[0] is not None and T.mentions(lg[0], ("phi",)):
            undecided("log entry on an object the analysis cannot identify", e)
        if is_work(e) and q != 2:
            fail("work outside the START/STOP bracket", e)
        if e.kind == "call" and e.name == "succeed" and q not in (1, 2):      # after pre-processing no time passes before START
            fail("start signal of the sub-processes outside the START/STOP bracket", e)
        return q

    def at_exit(q, kind, val, s):
        if kind == "return" and q < 2:
            fail("a path completes without a START entry")
        if kind == "return" and q < 3:
            fail("a path completes without a STOP entry")

    ck.walk(G, 0, step, at_exit)
    return seen[0]


def object_pair(ck, G, obj, what, inner):
    """obj logs START before and STOP after the effects for which inner(e) holds, exactly once each."""
    n = [0]

    def step(q, e):
        lg = log_call(e)
        if lg and lg[0] == obj and plain(lg[4]):
            n[0] += 1
            if lg[1] == "START":
                if q != 0:
                    fail(f"second START entry of {what}", e)
                check_log(e, what=f"START entry of {what}")
                return 1
            if lg[1] == "STOP":
                if q != 2:
                    fail(f"STOP entry of {what} " + ("before its travel/transfer" if q < 2 else "twice"), e)
                check_log(e, what=f"STOP entry of {what}")
                return 3
            if lg[1] is None:
                undecided("state is not a literal", e)
            fail(f"unlabelled {lg[1]} entry of {what} during the work", e)
        if inner(e):
            if q == 0:
                fail(f"travel/transfer begins before the START entry of {what}", e)
            if q == 3:
                fail(f"travel/transfer continues after the STOP entry of {what}", e)
            return 2
        return q

    def at_exit(q, kind, val, s):
        if kind == "return" and q != 3:
            fail(f"a path completes without the {'START' if q == 0 else 'STOP'} entry of {what}")

    ck.walk(G, 0, step, at_exit)
    return n[0]


def additional_logs(ck, G, coll):
    """Every element of coll gets the activity's pair, START before and STOP after the work."""
    n = [0]
    WANT = ("START", "STOP")

    def step(q, e):
        ph, done, inel = q         # ph 0: before work, 1: after; done: logs written in this phase; inel: in element
        X = e.recv
        if e.kind == "loop" and X == coll:
            return (ph, "loop", 0)
        if e.kind == "iter" and X == coll:
            return (ph, "loop", 0)
        if e.kind in ("back", "exhaust") and X == coll:
            if e.kind == "back" and inel != 1:
                fail(f"an element of additional_logs gets {inel} entries instead of one", e)
            if e.kind == "exhaust":
                return (ph, "done", 0)
            return (ph, "loop", 0)
        if e.kind == "break" and X == coll:
            fail("not every additional log is written", e)
        lg = log_call(e)
        if lg and lg[0] != SELF:
            src = lg[0]
            if src[0] == "at" and src[1] == coll and src[3] == 0:
                n[0] += 1
                if lg[1] != WANT[ph]:
                    fail(f"additional log gets {lg[1]}, expected {WANT[ph]}", e)
                check_log(e, what="additional log entry")
                return (ph, done, inel + 1)
            if src[0] == "at" and src[1] == coll:
                fail("log entry on a wrong element of additional_logs", e)
        if is_work(e):
            if done != "done" and not empty(e.facts):
                fail("the work starts before the START entries of the additional logs", e)
            return (1, "", 0)
        if e.kind == "yieldfrom" and e.name == "post_process":
            if done != "done" and not empty(e.facts):
                fail("the STOP entries of the additional logs are missing", e)
        return q

    def empty(facts):
        return known_empty(facts, coll) or facts.get(("isinstance", coll, "list")) is False

    ck.walk(G, (0, "", 0), step)
    return n[0]


def basic_work(ck, G):
    n = [0]

    def step(q, e):
        if e.kind == "yield" and is_work(e):
            n[0] += 1
            v = e.val
            if v[0] == "res" and v[2] == "timeout":
                expect(dict(v[4]).get("delay"), attr(SELF, "duration"), "work time of a basic activity", e)
                return q + 1
            undecided("unexpected wait", e)
        return q

    def at_exit(q, kind, val, s):
        if kind == "return" and q != 1:
            fail(f"a basic activity waits its duration {q} times")

    ck.walk(G, 0, step, at_exit)
    return n[0]


def own_log_passed(ck):
    n = 0
    G = ck.graph("GenericActivity", "register_process")
    for e in G.effects("call", "delayed_process"):
        expect(e.recv, SELF, "activity whose process is started", e)
        expect(e.arg("activity_log"), SELF, "log given to the process", e)
        expect(e.arg("env"), ENV, "environment given to the process", e)
        n += 1
    G = ck.graph("GenericActivity", "delayed_process", {"activity_log": SELF, "env": ENV})
    for e in G.effects("call", "main_process_function"):
        expect(e.recv, SELF, "activity whose work is started", e)
        expect(e.arg("activity_log"), SELF, "log given to the work", e)
        expect(e.arg("env"), ENV, "environment given to the work", e)
        n += 1
    return n or fail("the process of an activity never calls its main process")


def run(ck):
    for q in activities(ck):
        ck.ob("own START/STOP bracket", short(q), lambda: bracket(ck, ck.activity(
            q, config="three objects" if "Shift" in q else None)))
    ck.ob("own log is used", "GenericActivity", lambda: own_log_passed(ck))

    basic = ck.prog.find_class("openclsim.model.basic_activity.BasicActivity").qual
    ck.ob("additional logs", "BasicActivity",
          lambda: additional_logs(ck, ck.activity(basic), attr(SELF, "additional_logs")))
    ck.ob("work time", "BasicActivity", lambda: basic_work(ck, ck.activity(basic)))

    mover = attr(SELF, "mover")
    ck.ob("mover logs the travel", "MoveActivity", lambda: object_pair(
        ck, ck.activity("openclsim.model.move_activity.MoveActivity", transparent=("move",),
                        types={mover: ck.vessel()}),
        mover, "the moving object", lambda e: is_work(e) and e.kind == "yield"
        or e.kind == "setattr" and e.recv == mover and e.name == "geometry"))
    for c, (alias, objs) in CONFIGS.items():
        G = []

        def g(c=c):
            if not G:
                G.append(ck.activity("openclsim.model.shift_amount_activity.ShiftAmountActivity",
                                     transparent=("process",), config=c))
            return G[0]

        for o in objs:
            ck.ob("object logs the transfer", f"{c}: {T.show(o)}", lambda: object_pair(
                ck, g(), o, T.show(o), lambda e: is_work(e) and e.kind == "yield" or e.kind == "call" and
                e.name in ("put", "get")))
