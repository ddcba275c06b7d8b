"""Term comparison of the activities and conditions single_run_process builds, on every path through it.

The returned list is move(mover, origin), shift(loader: origin to mover, loading), move(mover, destination), shift(unloader: mover to
destination, unloading), all with the given environment and registry and one set of requested resources (the given one, else one new
dictionary by identity); the while activity has exactly this list, the given start event, and the given stop event, or, where that is
None or empty, "origin empty or destination full".  The constructors of these activities keep what they are given.
"""

import terms as T
from lib import AnalysisBroken, d, fail, imprecise, subterms, undecided
from rules.c06 import given
from rules.common import keeps, short

LEVEL = "other"
P = {n: ("param", n) for n in ("env", "registry", "name", "origin", "destination", "mover", "loader", "unloader", "start_event",
                               "stop_event", "requested_resources")}
ROLES = [
    ("sailing to the origin", "MoveActivity", {"mover": P["mover"], "destination": P["origin"]}),
    ("loading", "ShiftAmountActivity", {"processor": P["loader"], "origin": P["origin"], "destination": P["mover"],
                                        "phase": ("str", "loading")}),
    ("sailing to the destination", "MoveActivity", {"mover": P["mover"], "destination": P["destination"]}),
    ("unloading", "ShiftAmountActivity", {"processor": P["unloader"], "origin": P["mover"], "destination": P["destination"],
                                          "phase": ("str", "unloading")}),
]


ACTIVITIES = ("MoveActivity", "ShiftAmountActivity", "WhileActivity")
FIELDS = {"mover", "destination", "origin", "processor", "env", "registry", "requested_resources", "start_event", "sub_processes",
          "condition_event", "max_iterations", "keep_resources", "phase"}
KEPT = (("MoveActivity", ("mover", "destination")), ("ShiftAmountActivity", ("processor", "origin", "destination", "phase")),
        ("WhileActivity", ("sub_processes", "condition_event")), ("GenericActivity", ("registry", "start_event")),
        ("SimpyObject", ("env",)))


def bad(what, got, want):
    if got is not None and imprecise(got):
        undecided(f"{what}: {T.show(got)[:150]}")
    fail(f"{what} is {T.show(got)[:200] if got is not None else 'missing'}, not {want}")


def items(t):
    if t is not None and t[0] in ("list", "tuple") and all(s[0] == "item" for s in t[1]):
        return [s[1] for s in t[1]]
    return None


def container(owner, state):
    return d(("type", ("str", "container")), ("concept", owner), ("state", ("str", state)))


def single(t):
    """[e], {'and': [e]} and {'or': [e]} mean e."""
    while True:
        x = items(t)
        if x is not None and len(x) == 1:
            t = x[0]
        elif t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "kv" and t[1][0][1] in (("str", "and"), ("str", "or")) and len(
                items(t[1][0][2]) or ()) == 1:
            t = items(t[1][0][2])[0]
        else:
            return t


def same_dict(a, b):
    """Dictionary terms equal up to the order of their keys."""
    if a[0] == b[0] == "dict" and all(s[0] == "kv" for s in a[1] + b[1]):
        return {s[1]: s[2] for s in a[1]} == {s[1]: s[2] for s in b[1]}
    return a == b


def default_condition(t):
    t = single(t)
    if t[0] != "dict" or len(t[1]) != 1 or t[1][0][0] != "kv":
        return None if imprecise(t) else False
    k, v = t[1][0][1], t[1][0][2]
    parts = items(v)
    if parts is None:
        return None if imprecise(v) else False
    if k != ("str", "or") or len(parts) != 2:
        return None if imprecise(k) else False
    want = [container(P["origin"], "empty"), container(P["destination"], "full")]
    parts = [single(p) for p in parts]
    if all(any(same_dict(p, w) for p in parts) for w in want):
        return True
    return None if any(imprecise(p) for p in parts) else False


def run_(ck):
    fs = [f for f in ck.prog.all_functions() if f.name == "single_run_process" and f.cls is None]
    if not fs:
        raise AnalysisBroken("single_run_process not found")
    G = ck.graph(None, None, fn=fs[0])
    n = [0]

    def step(s, e):
        """Remember the identity of the resources each activity is given."""
        if e.kind == "setattr" and e.recv is not None and e.recv[0] == "new" and short(e.recv[2]) in ACTIVITIES and e.name in FIELDS:
            v = dict(e.recv[3]).get(e.name)
            if v != e.val:
                undecided(f"the {e.name} of an activity is changed", e) if imprecise(e.val) else fail(
                    f"the {e.name} of {short(e.recv[2])} is replaced by {T.show(e.val)[:120]}", e)
        if e.kind == "new":
            return s + ((e.res, e.refs.get("requested_resources")),)
        return s

    def empty(facts):
        """Is the given stop event None or empty on this path?  True / False / None (both possible)"""
        x = P["stop_event"]
        none = facts.get(T.isnone(x))
        eq = None
        for a, v in facts.items():
            if a[0] == "eq" and x in a[1:3] and any(y in (("list", ()), ("tuple", ())) for y in a[1:3]):
                eq = v
            if a in (T.eq0(("len", x)), ("eq0", ("len", x))):
                eq = v
        if none or eq:
            return True
        if facts.get(T.truth(x)) is not None:
            return not facts[T.truth(x)]
        if none is False and eq is False:
            return False
        return None

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        refs = dict(s)
        parts = items(v)
        if parts is None or len(parts) != 2:
            bad("the result", v, "the four activities and the while activity")
        run, loop = items(parts[0]), parts[1]
        if run is None:
            bad("the list of activities", parts[0], "sail, load, sail, unload")
        if loop[0] != "new" or short(loop[2]) != "WhileActivity":
            bad("the second result", loop, "a while activity")
        if len(run) != 4:
            fail(f"a single run has {len(run)} activities")
        args = dict(loop[3])
        if items(args.get("sub_processes")) != run:
            bad("what the while activity repeats", args.get("sub_processes"), "the returned activities")
        for k in ("env", "registry"):
            if args.get(k) != P[k]:
                bad(f"the {k} of the while activity", args.get(k), "the given one")
        if args.get("start_event", T.NONE) != P["start_event"]:
            if st.facts.get(T.isnone(P["start_event"])) is not True or args.get("start_event", T.NONE) != T.NONE:
                bad("the start event of the while activity", args.get("start_event"), "the given one")
        cond = args.get("condition_event")
        e = empty(st.facts)
        if cond == P["stop_event"] or cond is not None and items(cond) == [P["stop_event"]]:
            if e is not False:
                fail("repeats until the given stop event where none is given")
        else:
            r = default_condition(cond) if cond is not None else False
            if r is not True:
                undecided("the condition") if r is None else fail(f"the condition is {T.show(cond)[:300] if cond else 'missing'}")
            if e is not True:
                kinds = [a for a, v in st.facts.items() if a[0] == "isinstance" and a[1] == P["stop_event"] and v]
                if any(a[2] in ("dict", "list", "str") for a in kinds) and not any(
                        a[0] in ("lt0", "eq0", "eq", "call", "mcall") and P["stop_event"] in subterms(a) for a in st.facts):
                    fail("the default stop condition replaces a given one")
                if e is None and any(P["stop_event"] in subterms(a) and a[0] not in ("isnone", "truth", "eq") for a in st.facts):
                    undecided("whether a stop event is given")
                fail("the default stop condition replaces a given one")
        shared = set()
        for (what, cls, roles), x in zip(ROLES, run):
            if x[0] != "new":
                bad(what, x, f"a {cls}")
            if short(x[2]) != cls:
                fail(f"{what} is a {short(x[2])}, not a {cls}")
            a = dict(x[3])
            for k, w in {**roles, "env": P["env"], "registry": P["registry"]}.items():
                if a.get(k) != w:
                    bad(f"the {k} of {what}", a.get(k), T.show(w))
            if a.get("start_event", T.NONE) != T.NONE:
                fail(f"{what} has a start event of its own")
            shared.add((a.get("requested_resources"), refs.get(x)))
        rr = P["requested_resources"]
        given = st.facts.get(T.isnone(rr))
        if len(shared) != 1:
            bad("the requested resources", next((q for q, _ in shared if q is not None and imprecise(q)), None), "shared") if any(
                q is not None and imprecise(q) for q, _ in shared) else fail("the activities do not share their requested resources")
        q, ref = next(iter(shared))
        if q == rr and (given is False or st.facts.get(T.truth(rr))):
            return
        if q in (None, T.NONE) or q == rr:
            fail("each activity gets its own requested resources")
        if q == ("dict", ()):
            if given is not True:
                fail("the given requested resources are not used")
            if ref is None:
                undecided("whether the activities share their requested resources")
            return
        bad("the set of requested resources", q, "the given one")
    ck.walk(G, (), step, at_exit)
    return n[0]


def run(ck):
    ck.ob("sail, load, sail, unload until origin empty or destination full", "single_run_process", lambda: run_(ck))
    for c, names in KEPT:
        q = ck.prog.find_class(c).qual
        ck.ob("an activity keeps what it is given", c, lambda: keeps(ck, q, names))
    q = ck.prog.find_class("GenericActivity").qual
    ck.ob("an activity keeps the given set of resources", "GenericActivity", lambda: given(ck, q, "requested_resources", ("dict",)))
