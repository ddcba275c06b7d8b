"""Dataflow: the value of every timeout that an activity causes is the activity's id.

For every activity kind the main process is analysed with the move, the transfer, the plugins and the delays in line (so a write
of the mover's or processor's activity_id is followed into the timeout): every timeout's value is the activity's own id.  Delays
of plugins and time events carry the id of the activity they are given or belong to; a move or transfer on its own carries the
object's activity_id, which is written after the object is granted.  Every other timeout call of the simulation packages must be given such a value too.  Not covered:
Routable's sailing methods, which are no part of an activity.
"""

import ast

import terms as T
from lib import CONFIGS, SELF, attr, fail, imprecise, undecided
from rules.c06 import requests_in
from rules.common import activities, short

LEVEL = "other"
ASSUMPTIONS = ["an object serves one activity at a time (its resource has capacity 1)",
               "Routable's move_to_geometry, pass_linestring and move_over_route are not used within an activity"]
SIM = ("openclsim.core", "openclsim.model", "openclsim.plugins", "openclsim.utils")
INLINE = ("process", "move", "delay_processing", "pre_process", "post_process")
MOVES = ("BasicActivity", "MoveActivity", "ShiftAmountActivity")


def timeouts(G):
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind == "call" and e.name == "timeout":
                yield e


def judge(e, good):
    v = e.arg("value")
    if v in good:
        return
    w = " or ".join(T.show(g) for g in good)
    if v is None or v == T.NONE:
        fail(f"the timeout carries no value, expected {w}", e)
    if imprecise(v):
        undecided(f"the value of the timeout: {T.show(v)[:120]}", e)
    fail(f"the timeout carries {T.show(v)[:150]}, expected {w}", e)


def holds_it(ck, G):
    """An object is given the activity's id when the activity has it: while it waits, another activity may write its own."""
    def step(s, e):
        if e.kind == "setattr" and e.name == "activity_id" and e.recv != SELF:
            return s - {(e.recv, True)} | {(e.recv, False)}
        if e.kind == "yield" and e.val is not None and s:
            for r in requests_in(e.val):
                s = frozenset((x, stale or T.mentions(r, x)) for x, stale in s)
        if e.kind == "call" and e.name == "timeout":
            for x, stale in s:
                if stale and (x, False) not in s:
                    fail(f"{T.show(x)[:80]}.activity_id is set before {T.show(x)[:80]} is granted: another activity may overwrite it", e)
        return s
    ck.walk(G, frozenset(), step, lambda *a: None)


def of_graph(G, good, seen, least=0, ck=None):
    if ck is not None:
        holds_it(ck, G)
    n = 0
    for e in timeouts(G):
        n += 1
        judge(e, good)
    seen |= G.engine.funcs_seen
    if n < least:
        fail("no time passes")
    return n


def plugin(ck, q, seen):
    LOG, ACT = ("param", "activity_log"), ("param", "activity")
    c = ck.prog.classes[q]
    n = 0
    for m in ("pre_process", "post_process"):
        f = c.lookup(m)
        if f is None:
            continue
        G = ck.graph(q, m)
        n += of_graph(G, (attr(LOG, "id"), attr(ACT, "id")), seen)
        for o in G.out:
            for e, _ in o:
                if e is not None and e.kind == "call" and e.name == "delay_processing":
                    n += 1
                    a = e.arg("activity_log")
                    if a not in (LOG, ACT):
                        undecided("whose delay it is", e) if a is None or imprecise(a) else fail(
                            f"the delay is attributed to {T.show(a)[:100]}", e)
    return n


def others(ck, seen):
    """Timeouts in functions that none of the graphs above reached."""
    n = 0
    routable = {q for q in ck.prog.classes if short(q) == "Routable"}
    for f in ck.prog.all_functions():
        if not f.module.name.startswith(SIM):
            continue
        calls = [c for c in ast.walk(f.node) if isinstance(c, ast.Call) and (
            isinstance(c.func, ast.Attribute) and c.func.attr in ("timeout", "Timeout")
            or isinstance(c.func, ast.Name) and c.func.id == "Timeout")]
        if not calls:
            continue
        ck.funcs.add(f.qual)
        if f.cls is not None and f.cls.qual in routable:
            continue
        n += len(calls)
        if f.qual in seen:
            continue
        G = ck.graph(None, None, fn=f, self_type=f.cls.qual if f.cls else None)
        for e in timeouts(G):
            v = e.arg("value")
            if v is None or v == T.NONE:
                fail("the timeout carries no value", e)
            if not (v[0] == "attr" and v[2] in ("id", "activity_id") or v in (("param", "activity_id"), ("param", "id"))):
                undecided("the value of the timeout", e) if imprecise(v) else fail(
                    f"the timeout carries {T.show(v)[:150]}", e)
    return n


def run(ck):
    seen = set()
    ID = attr(SELF, "id")
    for q in activities(ck):
        for cfg in (CONFIGS if short(q) == "ShiftAmountActivity" else (None,)):
            ck.ob("the activity's timeouts carry its id", short(q) + (f", {cfg}" if cfg else ""),
                  lambda: of_graph(ck.activity(q, transparent=INLINE, config=cfg), (ID,), seen, short(q) in MOVES, ck))
    ck.ob("a delay carries the id of the activity that waits", "delay_processing", lambda: of_graph(
        ck.graph("GenericActivity", "delay_processing") if "delay_processing" in ck.prog.find_class("GenericActivity").methods
        else ck.graph("PluginActivity", "delay_processing"), (attr(("param", "activity_log"), "id"), ID), seen, 1))
    ck.ob("a time event carries the id of its activity", "parse_expression", lambda: of_graph(
        ck.graph("GenericActivity", "parse_expression"), (ID,), seen, 1))
    for c, m in (("Movable", "move"),):
        ck.ob("a move carries the activity id of the object", f"{c}.{m}", lambda: of_graph(
            ck.graph(c, m), (attr(SELF, "activity_id"),), seen, 1))
    # the id kept on the origin or the destination may be that of another transfer by then
    ck.ob("a transfer carries the activity id of the processor", "Processor.process", lambda: of_graph(
        ck.graph("Processor", "process", self_type=ck.vessel()), (attr(SELF, "activity_id"), ("param", "activity_id")), seen, 1))
    root = ck.prog.find_class("AbstractPluginClass").qual
    for q in sorted(ck.prog.classes):
        if not q.startswith("composite.") and root in ck.prog.mro(q):
            ck.ob("a plugin's delay carries the id of its activity", short(q), lambda: plugin(ck, q, seen))
    ck.ob("every other timeout carries an activity's id", "simulation packages", lambda: others(ck, seen))
