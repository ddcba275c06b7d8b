"""Typestate and value analysis of a move.

Movable.move (for each kind of mover): no effect before the destination check; the engine order given is stored before the
duration is computed; the start is logged; exactly one timeout of the given duration - or, exactly when none is given, of
compute_duration(own geometry, geometry of the destination) - passes; only after it the geometry is set, to the destination's;
then the arrival is logged.  MoveActivity hands destination, duration and engine order over to exactly one move of its mover,
which carries the activity's id.
"""

import terms as T
from lib import ENV, SELF, attr, fail, imprecise, subterms, undecided
from rules.common import SELF_ID, activities, log_call, now, plain, short

LEVEL = "other"
DEST, DUR, EO = (("param", n) for n in ("destination", "duration", "engine_order"))


def geometry_of(t, who):
    """Is t the geometry of who (as a shape)?"""
    while t[0] == "stale" or t[0] == "call" and t[1] == "shapely.geometry.shape" and len(t[2]) == 1:
        t = t[1] if t[0] == "stale" else t[2][0]
    return t == attr(who, "geometry") or t[0] == "vol" and t[2:] == (who, "geometry")


def computed(v):
    """Is v the duration computed for this move?  None if it is not a computed duration."""
    if v[0] == "stale":
        v = v[1]
    if v[0] != "res" or v[2] != "compute_duration" or v[3] != SELF:
        return None
    a = dict(v[4])
    eo = a.get("engine_order", T.num(1))
    return geometry_of(a.get("origin", T.NONE), SELF) and geometry_of(a.get("destination", T.NONE), DEST) and \
        eo in (T.num(1), T.const(1.0))


def moves(ck, cls):
    G = ck.graph(cls, "move")
    names = [p[0] for p in G.entry.params()]
    for n in ("destination", "duration", "engine_order"):
        if n not in names:
            undecided(f"parameters of {G.entry.qual}")
    n = [0]

    # state: destination known to be there, engine order stored, phase (0 idle, 1 started, 2 travelled, 3 there, 4 logged)
    def step(s, e):
        dest, eo, ph = s
        if e.kind == "assume":
            if e.recv == T.isnone(DEST):
                return (e.val != T.TRUE, eo, ph)
            if e.recv == T.isnone(EO) and e.val == T.TRUE:
                return (dest, "none", ph)
            if e.recv == T.truth(EO) and e.val == T.FALSE and eo is None:
                return (dest, "none", ph)
            return s
        if e.kind in ("observe", "new", "local", "loop", "iter", "back", "exhaust", "catch"):
            return s
        if dest is not True and e.kind in ("call", "setattr", "yield", "yieldfrom", "setitem", "mutate") and \
                e.name not in ("compute_duration", "compute_distance", "compute_v", "__getitem__"):
            fail("acts before it is known that there is a destination", e)
        if e.kind == "setattr" and e.recv == SELF and e.name == "engine_order":
            if e.val != EO:
                undecided("the engine order", e) if imprecise(e.val) else fail(
                    f"the engine order becomes {T.show(e.val)[:100]}", e)
            return (dest, "set", ph)
        if e.kind == "call" and e.name == "compute_duration" and eo is None:
            fail("the duration is computed before the given engine order is in force", e)
        if e.kind == "setattr" and e.name == "geometry" and e.recv == SELF:
            if ph < 2:
                fail("the position changes before the travel time has passed", e)
            if not geometry_of(e.val, DEST):
                undecided("the new position", e) if imprecise(e.val, {u for u in subterms(e.val) if u[0] == "call" and
                                                                     u[1] == "shapely.geometry.shape"}) else fail(
                    f"the new position is {T.show(e.val)[:150]}", e)
            return (dest, eo, max(ph, 3))
        lg = log_call(e)
        if lg:
            if lg[0] != SELF:
                undecided("who logs", e)
            if lg[2] != now(e):
                undecided("the logged time", e) if imprecise(lg[2]) else fail(
                    f"logs the time {T.show(lg[2])[:100]}", e)
            if lg[3] != attr(SELF, "activity_id"):
                undecided("the logged activity", e) if imprecise(lg[3]) else fail(
                    f"logs activity {T.show(lg[3])[:100]}", e)
            if lg[1] == "START":
                if ph != 0:
                    fail("the start is logged after the travel began" if ph > 1 else "the start is logged twice", e)
                n[0] += 1
                return (dest, eo, 1)
            if lg[1] == "STOP":
                if ph != 3:
                    fail({0: "an arrival is logged before the travel", 1: "an arrival is logged before the travel",
                          2: "the arrival is logged before the position changes",
                          4: "the arrival is logged twice"}[ph], e)
                n[0] += 1
                return (dest, eo, 4)
            fail(f"logs the state {lg[1]}", e) if lg[1] else undecided("the logged state", e)
        if e.kind in ("yield", "yieldfrom"):
            v = e.val
            if v is None or v[0] != "res" or v[2] != "timeout":
                undecided("what the move waits for", e) if v is None or imprecise(v) else fail(
                    f"the move waits for {T.show(v)[:150]}", e)
            if ph == 0:
                fail("travels before the start is logged", e)
            if ph > 1:
                fail("travels twice", e)
            if eo is None:
                fail("the given engine order is not in force", e)
            dl = dict(v[4]).get("delay", T.NONE)
            given = e.facts.get(T.isnone(DUR))
            c = computed(dl)
            if dl == DUR:
                if given is True:
                    fail("no duration is given, and none is computed", e)
            elif c is None:
                undecided("the travel time", e) if imprecise(dl) else fail(
                    f"the travel time is {T.show(dl)[:200]}", e)
            elif c is False:
                fail(f"the travel time is {T.show(dl)[:250]}, not the one from its own position to the destination", e)
            elif given is not True:
                fail("a given duration (possibly 0) is replaced by the computed one", e)
            return (dest, eo, 2)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return":
            if s[0] is not True:
                fail("a move without destination is accepted")
            if s[2] != 4:
                fail("the move ends " + {0: "without travelling", 1: "without travelling",
                                         2: "without changing the position",
                                         3: "without logging the arrival"}[s[2]])
    ck.walk(G, (None, None, 0), step, at_exit)
    return n[0] or fail("nothing is logged")


def hands_over(ck, q):
    G = ck.activity(q)
    mover = attr(SELF, "mover")
    n = [0]

    def step(s, e):
        tagged, moved = s
        if e.kind == "setattr" and e.recv == mover and e.name == "activity_id":
            if e.val != SELF_ID:
                undecided("the id the mover gets", e) if imprecise(e.val) else fail(
                    f"the mover gets activity id {T.show(e.val)[:100]}", e)
            return (True, moved)
        if e.kind == "yieldfrom" and e.name == "move" or e.kind == "call" and e.name == "move":
            n[0] += 1
            if e.recv != mover:
                fail(f"moves {T.show(e.recv)[:80]}, not its mover", e)
            if not tagged:
                fail("the mover does not know for which activity it moves", e)
            for k, want in (("destination", attr(SELF, "destination")), ("duration", attr(SELF, "duration")),
                            ("engine_order", attr(SELF, "engine_order"))):
                got = e.arg(k)
                if got is None:
                    got = T.NONE
                if got != want:
                    undecided(f"the {k} of the move", e) if imprecise(got) else fail(
                        f"the {k} of the move is {T.show(got)[:100]}, expected {T.show(want)}", e)
            if e.kind == "call":
                return s
            if moved:
                fail("moves twice", e)
            return (tagged, True)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s[1]:
            fail("the mover is not moved")
    ck.walk(G, (False, False), step, at_exit)
    H = ck.graph(q, "__init__")
    want = {"destination", "duration", "engine_order", "mover"}

    def stores(s, e):
        if e.kind == "setattr" and e.recv == SELF and e.name in want:
            if e.val != ("param", e.name):
                undecided(f"option {e.name}", e) if imprecise(e.val) else fail(
                    f"{e.name} becomes {T.show(e.val)[:100]}", e)
            n[0] += 1
            return s | {e.name}
        return s

    def all_stored(s, kind, v, st):
        if kind == "return" and s != want:
            fail(f"{', '.join(sorted(want - s))} is not stored")
    ck.walk(H, frozenset(), stores, all_stored)
    return n[0]


def run(ck):
    done = set()
    for c in ("Movable", "ContainerDependentMovable", "MultiContainerDependentMovable"):
        f = ck.prog.find_method(c, "move")
        ck.ob("course of a move", c, lambda: moves(ck, c))
    for q in activities(ck):
        if short(q) == "MoveActivity":
            ck.ob("the activity hands over its options", short(q), lambda: hands_over(ck, q))
