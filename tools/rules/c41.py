"""Term analysis of the extraction of dependencies from recorded simpy steps, with a truth table over the conditions used.

The loop over the recorded cause-effect pairs is summarised as terms: what it remembers per event and which pairs of events it
reports.  For every combination of truth values of the elementary conditions (cause / effect is a timeout, has a positive delay, the
cause is preceded by a remembered timeout) both are compared with the specification: the remembered event is the last timeout of
positive delay on the way to the event, and a pair is reported iff the effect is such a timeout and one is remembered.
"""

import ast
import itertools
from fractions import Fraction

import terms as T
from lib import IMPRECISE, SELF, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["the recorded pairs are in the order of the steps that caused them (C29), so that an event is recorded as effect before "
               "it is recorded as cause",
               "no timeout of an activity is the first event of a simulation that is given the id 0 and its truth value tested"]
BV = ("bv",)
X0, X1 = ("key", BV, T.num(0)), ("key", BV, T.num(1))
CLS = "DependenciesFromSimpy"
OPAQUE = ("get_recorded_activity_df", "_make_recorded_activities_df", "_find_cp_act")


def strip(t):
    while True:
        if t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
            t = t[1][0][1]
        elif t[0] == "copy":
            t = t[1]
        else:
            return t


def field(t, table=None):
    """(event id, column) of a read of the table of recorded steps"""
    if t[0] == "key" and t[1][0] == "attr" and t[1][2] in ("loc", "at") and t[2][0] == "tuple" and len(t[2][1]) == 2:
        base, (i, c) = t[1][1], [s[1] for s in t[2][1]]
    elif t[0] == "key" and t[1][0] == "key" and t[1][1][0] == "attr" and t[1][1][2] == "loc":
        base, i, c = t[1][1][1], t[1][2], t[2]
    elif t[0] == "key" and t[1][0] == "key" and t[1][2][0] == "str":
        base, i, c = t[1][1], t[2], t[1][2]
    elif t[0] == "attr" and t[1][0] == "key" and t[1][1][0] == "attr" and t[1][1][2] == "loc":
        base, i, c = t[1][1][1], t[1][2], ("str", t[2])
    else:
        return None
    if c[0] != "str" or table is not None and base != table:
        return None
    return i, c[1]


class Free(Exception):
    pass


def outcomes(f, now):
    """The values of f for all truth values of the conditions that it depends on besides"""
    out, todo = set(), [now]
    while todo:
        w = todo.pop()
        try:
            out.add(f(w))
        except Free as x:
            if len(w) > 9:
                undecided("too many conditions")
            todo += [{**w, ("free", x.args[0]): True}, {**w, ("free", x.args[0]): False}]
    return out


class Loop:
    def __init__(self, grown, table):
        self.grown, self.table = grown, table
        self.memo = None        # (loop, collection) that remembers the last timeout

    def event(self, t):
        """The id of the event"""
        f = field(t, self.table)
        if f is not None and f[1] == "event_object":
            return f[0]
        return None

    def prev(self, t):
        """Is it what is remembered for the cause?"""
        d = None
        if t[0] == "dget" and t[2] == X0 and t[3] == T.NONE:
            d = t[1]
        elif t[0] == "key" and t[2] == X0:
            d = t[1]
        if d is not None and d[0] == "dict":        # an event does not cause itself
            d = ("dict", tuple(x for x in d[1] if not (x[0] == "kv" and x[1] == X1)))
        if d is not None and d[0] == "dict" and len(d[1]) == 1 and d[1][0][0] == "sofar":
            k = d[1][0][1:]
            if self.memo not in (None, k):
                undecided("two memories of earlier events")
            self.memo = k
            return True
        return False

    def atom(self, a, now):
        """Truth value of a condition; now: {"iso0": .., "pos0": .., "iso1": .., "pos1": .., "prev": ..}"""
        if a[0] == "not":
            return not self.atom(a[1], now)
        if a[0] == "anyof":
            return any(all(self.atom(x, now) for x in c) for c in a[1])
        if a[0] in ("and", "or"):
            xs = a[1] if len(a) == 2 and isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], tuple) else a[1:]
            return (all if a[0] == "and" else any)(self.atom(x, now) for x in xs)
        if a[0] == "bool":
            return a[1]
        if a[0] == "isinstance":
            i = self.event(a[1])
            if i in (X0, X1):
                c = a[2] if isinstance(a[2], str) else a[2][0] if len(a[2]) == 1 and isinstance(a[2][0], str) else None
                if c in ("simpy.events.Timeout", "simpy.Timeout"):
                    return now["iso0" if i == X0 else "iso1"]
                fail(f"the events are selected by {c if isinstance(c, str) else T.show(a)[:100]}, not as timeouts") if isinstance(
                    c, str) and c.startswith("simpy") else undecided(f"the condition {T.show(a)[:150]}")
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                f = field(x, self.table)
                if f is not None and f[1] == "type" and f[0] in (X0, X1) and "simpy.events.Timeout" in repr(y):
                    return now["iso0" if f[0] == X0 else "iso1"]
        if a[0] in ("lt0", "eq0"):
            p = a[1] if a[1][0] == "poly" else ("poly", ((((a[1], 1),), 1),))
            ev = {m[0][0]: k for m, k in p[1] if m}
            const = dict(p[1]).get((), 0)
            if len(ev) == 1:
                x, k = next(iter(ev.items()))
                i = self.event(x[1]) if x[0] == "attr" and x[2] in ("_delay", "delay") else None
                if i in (X0, X1):
                    pos = now["pos0" if i == X0 else "pos1"]
                    if a[0] == "eq0" and const == 0:
                        return not pos
                    if a[0] == "lt0" and k < 0 and const == 0:
                        return pos
                    if a[0] == "lt0" and k > 0 and const == 0:      # delay < 0
                        return False
                    fail(f"the delay of the events is compared as {T.show(a)[:100]}, not with zero")
        if a[0] == "isnone":
            if a[1] in (X0, X1):
                return False
            if self.prev(a[1]):
                return not now["prev"]
            if a[1][0] == "dget" and a[1][2] == X1 and a[1][1][0] == "dict" and len(a[1][1][1]) == 1 and a[1][1][1][0][0] == "sofar":
                fail("the earlier timeout is looked up for the effect, for which none is remembered yet")
            if a[1][0] == "cases":
                return self.atom(("isnone", self.value(a[1], now)), now)
            if a[1] == T.NONE:
                return True
        if a[0] == "in" and a[1] == X0 and a[2][0] == "dict" and len(a[2][1]) == 1 and a[2][1][0][0] == "sofar":
            self.prev(("key", a[2], X0))
            return now["prev"]
        if ("free", a) in now:
            return now["free", a]
        if a[0] in ("isnone", "lt0", "eq0", "eq") and self.unrelated(a):
            raise Free(a)
        undecided(f"the condition {T.show(a)[:200]}")

    def unrelated(self, a):
        """Does it depend on what is recorded of the two events besides their delay alone, and can it hold and not hold?"""
        if any(x[0] in IMPRECISE or x[0] in ("call", "mcall", "res", "cases", "dget", "closure", "phi", "global") or x[0] == "vol" and x[-1] != "value"
               for x in subterms(a)):
            return False
        fs = {(i, c, kind) for x in subterms(a) for i, c, kind in [self.reading(x)] if kind}
        if a[0] == "isnone":
            return len(fs) == 1 and {k for _, _, k in fs} <= {"value"}
        if a[0] in ("lt0", "eq0"):
            p = a[1]
            if {k for _, _, k in fs} == {"t0", "t1"} and p[0] == "poly" and len(p[1]) == 2:
                return dict(p[1]).get(tuple(), None) is None
            ids = [(k, c) for k, c in (p[1] if p[0] == "poly" else ())]
            if not fs and p[0] == "poly" and {k[0][0] for k, c in ids if k} == {X0, X1}:
                c0, c1 = (next(c for k, c in ids if k and k[0][0] == x) for x in (X0, X1))
                const = dict(p[1]).get((), 0)
                # the id of the effect is at least one more than that of the cause
                return c0 == -c1 and a[0] == "lt0" and (c1 < 0 and const / -c1 >= 1 or c1 > 0 and -const / c1 > 1)
        return False

    def reading(self, x):
        f = field(x, self.table)
        if f is not None and f[0] in (X0, X1) and f[1] in ("t0", "t1", "prio", "value"):
            return f[0], f[1], f[1]
        if x[0] in ("attr", "vol") and x[-1] == "value":
            for b in x[1:-1]:
                if isinstance(b, tuple) and self.event(b) in (X0, X1):
                    return self.event(b), "event_object", "value"
        return None, None, None

    def value(self, v, now):
        if v[0] == "key" and v[1][0] == "cases" and v[2][0] == "num":
            x = self.value(v[1], now)
            if x[0] in ("tuple", "list") and all(s[0] == "item" for s in x[1]):
                return self.value(x[1][int(v[2][1])][1], now)
            undecided(f"{T.show(v)[:150]}")
        if v[0] == "cases":
            hit = [x for c, x in v[1] if self.atom(c, now)]
            if len(hit) != 1:
                undecided(f"{len(hit)} cases apply")
            return self.value(hit[0], now)
        return v


STATES = [dict(zip(("iso0", "pos0", "iso1", "pos1", "prev"), c)) for c in itertools.product((True, False), repeat=5)]


def say(now):
    c = "a timeout" + (" of positive delay" if now["pos0"] else " of no delay") if now["iso0"] else "another event"
    e = "a timeout" + (" of positive delay" if now["pos1"] else " of no delay") if now["iso1"] else "another event"
    return f"for {c} that triggers {e}, {'with' if now['prev'] else 'without'} an earlier timeout"


def run(ck):
    tables = {}

    def recorded():
        G = ck.graph(CLS, "__init__")
        sets = {}

        def step(s, e):
            if e.kind == "setattr" and e.recv == SELF:
                sets.setdefault(e.name, []).append((e.val, e))
            return s
        ck.walk(G, (), step, lambda *a: None)
        for n, vs in sets.items():
            for v, e in vs:
                def of_env(t, name):
                    t = strip(t)
                    return t[0] in ("attr", "vol") and t[-1] == name
                if of_env(v, "data_cause_effect"):
                    tables["pairs"] = attr(SELF, n)
                elif v[0] != "obj" and any(x[0] in ("attr", "vol") and x[-1] == "data_cause_effect" for x in subterms(v)):
                    if any(x[0] == "slice" and of_env(x[1], "data_cause_effect") for x in subterms(v)):
                        fail(f"only some of the recorded pairs are kept: {T.show(v)[:100]}", e)
                    if any(x[0] == "dict" and x[1] and x[1][0][0] in ("splat", "each") and of_env(x[1][0][1], "data_cause_effect")
                           for x in subterms(v)):
                        fail("only one effect of every cause is kept", e)
                    x = strip(v)
                    x = x[1][0] if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each" else x
                    if x[0] == "filter" and of_env(x[1], "data_cause_effect") or x[0] == "each" and of_env(x[1], "data_cause_effect"):
                        if x[-1] and not imprecise(x[-1]) and not any(y[0] in ("call", "mcall", "res") for y in subterms(x[-1])):
                            fail(f"only those of the recorded pairs are kept for which {T.show(x[-1][0])[:80]}", e)
                idx, t = None, v
                if t[0] in ("mcall", "res") and t[2] == "set_index":
                    idx, t = dict(t[3] if t[0] == "mcall" else t[4]), t[1] if t[0] == "mcall" else t[3]
                    idx = idx.get("", idx.get("0", idx.get("keys")))
                if t[0] == "call" and t[1] == "pandas.DataFrame":
                    data = t[2][0] if t[2] else dict(t[3]).get("data")
                    if data is None or not of_env(data, "data_step"):
                        continue
                    cols = dict(t[3]).get("columns")
                    if cols is None or cols[0] not in ("list", "tuple") or any(s[0] != "item" or s[1][0] != "str" for s in cols[1]):
                        undecided("the columns of the recorded steps", e)
                    if idx is None:
                        undecided("the index of the recorded steps", e)
                    if idx != ("str", "e_id"):
                        fail(f"the recorded steps are looked up by {T.show(idx)[:80]}, not by event id", e)
                    tables["columns"] = [s[1][1] for s in cols[1]]
                    tables["steps"] = attr(SELF, n)
        if "steps" not in tables or "pairs" not in tables:
            undecided("the recorded steps and pairs kept by the object")
        # the environment records its steps in these columns
        G = ck.graph("CriticalPathEnvironment", "step", volatile=("now", "_now"))
        rows = set()

        def step2(s, e):
            if e.kind == "mutate" and e.name == "append" and e.recv[0] == "attr" and e.recv[2] == "data_step":
                rows.add(e.args.get("0"))
            return s
        ck.walk(G, (), step2, lambda *a: None)
        n = 0
        for r in rows:
            if r is None or r[0] != "tuple" or any(s[0] != "item" for s in r[1]):
                undecided("the recorded step")
            if len(r[1]) != len(tables["columns"]):
                fail(f"a recorded step has {len(r[1])} values for {len(tables['columns'])} columns")
            row = dict(zip(tables["columns"], [s[1] for s in r[1]]))
            if row.get("e_id") == T.NONE or row.get("event_object") == T.NONE:
                continue        # no event was left
            for col, pos in (("e_id", 2), ("event_object", 3)):
                v = row.get(col)
                if v is None:
                    fail(f"the recorded steps have no column {col}")
                if v[0] == "key" and v[2][0] == "num":
                    if v[2] != T.num(pos) or not (v[1][0] == "key" and v[1][2] == T.num(0)):
                        fail(f"the column {col} of the recorded steps holds {T.show(v)[:100]}")
                    n += 1
                elif imprecise(v):
                    undecided(f"the column {col} of the recorded steps holds {T.show(v)[:100]}")
                else:
                    fail(f"the column {col} of the recorded steps holds {T.show(v)[:100]}")
            for c, when in (("t0", True), ("t1", False)):
                w = strip(row.get(c, T.NONE))
                if w[0] == "vol" and (w[1] == "S0") != when:
                    fail(f"the column {c} of the recorded steps holds the time {'after' if when else 'before'} the step")
            if row.get("t1") == row.get("t0") and row.get("t1") is not None:
                fail("the end of a recorded step is the time before the step")
        if not n:
            undecided("no recorded step")
        return {"columns": len(tables["columns"]), "values": n}

    def extraction():
        if "steps" not in tables:
            undecided("the recorded steps are not known")
        G = ck.graph(CLS, "get_dependency_list", opaque=OPAQUE)
        sets, values = {}, []

        def step(s, e):
            if e.kind == "setattr" and e.recv == SELF:
                sets.setdefault(e.name, []).append((e.val, e))
            return s

        def at_exit(s, kind, v, st):
            if kind == "return":
                values.append(v)
        ck.walk(G, (), step, at_exit)
        loop = Loop(G.grown, tables["steps"])
        done = 0
        for v in values:
            if v[0] == "attr" and v[1] == SELF:
                if v[2] not in sets:
                    undecided(f"self.{v[2]} is not set here")
                for w, e in sets[v[2]]:
                    if w != v:
                        done += listed(loop, w)
                continue
            done += listed(loop, v)
        if not done:
            undecided("no list of dependencies")
        return {"truth table rows": done * len(STATES)}

    def found(t):
        """The event id whose activity is looked up"""
        if t[0] in ("res", "mcall") and t[2] == "_find_cp_act":
            kw = dict(t[4] if t[0] == "res" else t[3])
            return kw.get("e_id", kw.get("0", kw.get("")))
        return None

    def listed(loop, t):
        t = strip(t)
        if t[0] == "slice" and t[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE)) and all(x[0] in ("num", "none") for x in t[2:]):
            fail(f"only some of the dependencies are reported, by their place in the list ({T.show(t)[-40:]})")
        if t[0] == "set" or t[0] == "call" and t[1] in ("set", "sorted"):
            t = strip(t[2][0]) if t[0] == "call" else ("list", t[1])
        if t[0] != "list" or len(t[1]) != 1 or t[1][0][0] != "each" or t[1][0][2][0] != "item":
            undecided(f"the dependencies: {T.show(t)[:200]}")
        _, coll, seg, conds = t[1][0]
        c = strip(coll)
        if c != tables["pairs"]:
            if c[0] == "slice" and strip(c[1]) == tables["pairs"] or c[0] == "filter" and strip(c[1]) == tables["pairs"]:
                fail(f"only some of the recorded pairs are looked at: {T.show(c)[:150]}")
            if c[0] == "slice" and c[2:4] not in ((T.NONE, T.NONE), (T.num(0), T.NONE)) and all(x[0] in ("num", "none") for x in c[2:]):
                fail(f"only some of the dependencies are reported, by their place in the list ({T.show(c)[-40:]})")
            undecided(f"the dependencies are taken from {T.show(coll)[:150]}")
        item = seg[1]
        for now in STATES:
            if now["pos0"] and not now["iso0"] or now["pos1"] and not now["iso1"]:
                continue        # only timeouts have a delay (the conditions are evaluated in order)
            tc, te = now["iso0"] and now["pos0"], now["iso1"] and now["pos1"]
            want = (X0 if tc else "prev" if now["prev"] else None) if te else None
            gots = outcomes(lambda w: all(loop.atom(a, w) for a in conds), now)
            if gots != {want is not None}:
                got = next(iter(gots - {want is not None}))
                fail(f"{say(now)}, {'a' if got else 'no'} dependency is reported" + (
                    ", depending on what else is recorded of the events" if len(gots) > 1 else ""))
            if gots == {False}:
                continue
            v = loop.value(item, now)
            if v[0] not in ("tuple", "list") or len(v[1]) != 2 or any(s[0] != "item" for s in v[1]):
                undecided(f"the dependency {T.show(v)[:150]}")
            ids = [found(s[1]) for s in v[1]]
            if None in ids and any(i is None and loop.value(s[1], now) in (X0, X1) for i, s in zip(ids, v[1])):
                fail("the dependency holds ids of events, not of recorded activities")
            if None in ids:
                undecided(f"the dependency {T.show(v)[:150]}") if any(imprecise(s[1]) for s in v[1]) else fail(
                    f"the dependency is {T.show(v)[:150]}: its events are not looked up as recorded activities")
            a, b = [loop.value(i, now) for i in ids]
            if not (b == X1 and (a == X0 if want == X0 else loop.prev(a))):
                if imprecise(a) or imprecise(b):
                    undecided(f"the dependency ({T.show(a)[:80]}, {T.show(b)[:80]})")
                fail(f"{say(now)}, the dependency is ({T.show(a)[:80]}, {T.show(b)[:80]})")
        # what is remembered
        if loop.memo is None or loop.memo not in loop.grown:
            undecided("what the loop remembers per event")
        kind, segs = loop.grown[loop.memo]
        if kind != "dict" or len(segs) != 1 or segs[0][0] != "each" or segs[0][2][0] != "kv" or strip(segs[0][1]) != tables["pairs"]:
            undecided(f"what the loop remembers per event: {[T.show(x)[:100] for x in segs]}")
        _, _, kv, mconds = segs[0]
        for now in STATES:
            if now["pos0"] and not now["iso0"] or now["pos1"] and not now["iso1"]:
                continue
            want = X0 if now["iso0"] and now["pos0"] else "prev" if now["prev"] else None
            if not all(loop.atom(a, now) for a in mconds):
                if want is not None:
                    fail(f"{say(now)}, the earlier timeout is forgotten")
                continue
            if kv[1] != X1:
                undecided(f"remembered for {T.show(kv[1])[:100]}") if imprecise(kv[1]) else fail(
                    f"the last timeout is remembered for {T.show(kv[1])[:60]}, not for the effect")
            v = loop.value(kv[2], now)
            ok = v == X0 if want == X0 else v == T.NONE or loop.prev(v) if want is None else loop.prev(v)
            if not ok:
                undecided(f"remembered: {T.show(v)[:100]}") if imprecise(v) else fail(
                    f"{say(now)}, {T.show(v)[:80]} is remembered as the last timeout")
        return 1

    def lookup():
        if "steps" not in tables:
            undecided("the recorded steps are not known")
        f = ck.prog.find_method(CLS, "_find_cp_act")
        if f is None:
            undecided("_find_cp_act")
        G = ck.graph(CLS, "_find_cp_act")
        rec = ("param", "recorded_activities_df")
        n = [0]

        def masks(m):
            if m[0] == "op" and m[1] == "BitAnd":
                return masks(m[2]) + masks(m[3])
            if m[0] == "and":
                return [y for x in (m[1] if isinstance(m[1][0], tuple) else m[1:]) for y in masks(x)]
            return [m]

        def col(t, name):
            return t in (attr(rec, name), ("key", rec, ("str", name)))

        def rows(t):
            """The masks by which the recorded activities are selected, for a column of them"""
            if t[0] == "attr" and t[2] in ("iloc", "values", "loc"):
                return rows(t[1])
            if t[0] == "key" and t[1][0] == "attr" and t[1][2] in ("loc",) and t[1][1] == rec and t[2][0] == "tuple":
                m, c = [s[1] for s in t[2][1]]
                return masks(m), c
            if t[0] == "key" and t[2][0] == "str" and t[1][0] == "key" and t[1][1] == rec:
                return masks(t[1][2]), t[2]
            if t[0] == "attr" and t[1][0] == "key" and t[1][1] == rec:
                return masks(t[1][2]), ("str", t[2])
            if t[0] == "key" and t[2][0] == "str" and t[1][0] == "key" and t[1][1] == attr(rec, "loc"):
                k = t[1][2]
                return masks(k[1][0][1] if k[0] == "tuple" else k), t[2]
            return None

        def at_exit(s, kind, v, st):
            if kind != "return":
                return
            t = v
            if t == T.NONE:
                fail("nothing is found for an event, and its dependencies are reported without an activity")
            if t[0] == "key" and t[2][0] == "num" or t[0] == "at":
                t = t[1]
            if t[0] == "attr" and t[2] == "index" and rows(t[1]) is not None:
                fail("the row label of the recorded activity is returned, not its cp_activity_id")
            if t[0] == "mcall" and t[2] in ("unique", "tolist", "to_list", "to_numpy"):
                t = t[1]
            r = rows(t)
            if r is None:
                undecided(f"the activity found: {T.show(v)[:200]}")
            ms, c = r
            if c != ("str", "cp_activity_id"):
                fail(f"the {T.show(c)} of the recorded activity is returned, not its cp_activity_id")
            got = set()
            for m in ms:
                if m[0] == "lt0" and m[1][0] == "poly":
                    ts = dict(m[1][1])
                    far = [k[0][0] for k in ts if len(k) == 1 and k[0][1] == 1 and "abs" in (k[0][0][0], *[
                        x for x in k[0][0][1:3] if isinstance(x, str)])]
                    if len(ts) == 2 and len(far) == 1 and any(col(x, "end_time") for x in subterms(far[0])) and any(
                            (field(x, tables["steps"]) or ("", ""))[1] == "t1" for x in subterms(far[0])):
                        d = -ts.get((), 0) / ts[((far[0], 1),)]
                        if 0 < d <= Fraction(1, 1000):
                            got.add("end")
                            continue
                        if d > 0:
                            fail(f"executions that end within {float(d):g} s of each other are confused: the recorded activity is "
                                 "found by the approximate end time")
                b = m[1] if m[0] == "not" else m
                if b[0] == "lt0" and b[1][0] == "poly" and not any(x[0] in IMPRECISE for x in subterms(b)):
                    own = {x[2] if x[0] == "attr" else x[2][1] for x in subterms(b) if x[0] in ("attr", "key") and x[1] == rec and (
                        x[0] == "attr" or x[2][0] == "str")} - {"loc", "iloc"}
                    fs = {(field(x, tables["steps"]) or ("", ""))[1] for x in subterms(b)} - {""}
                    if own == {"end_time"} and fs == {"t1"} and len(b[1][1]) == 2 and () not in dict(b[1][1]) and not any(
                            x[0] in ("abs",) or "abs" in x[1:3] for x in subterms(b)):
                        fail("the recorded activity is found by a bound on its end time, not by the time at which it ended")
                    if own == {"duration"} and not fs:
                        fail("recorded activities are looked up by their duration as well")
                if m[0] != "eq":
                    undecided(f"recorded activities selected by {T.show(m)[:150]}")
                for a, b in ((m[1], m[2]), (m[2], m[1])):
                    if col(a, "ActivityID"):
                        if b[0] in ("attr", "vol") and b[-1] in ("_delay", "delay", "_ok", "env") and field(b[1]) or field(b) and field(b)[
                                1] in ("t0", "t1", "prio", "type", "event_object"):
                            fail(f"the recorded activity is found by the {b[-1] if isinstance(b[-1], str) else field(b)[1]} of the event")
                        if not (b[0] in ("attr", "vol") and b[-1] == "value" or field(b) and field(b)[1] == "value"):
                            undecided(f"recorded activities of {T.show(b)[:100]}")
                        got.add("activity")
                        break
                    if any(col(a, x) for x in ("end_time", "start_time")):
                        fs = [field(x, tables["steps"]) for x in subterms(b)]
                        fs = [x for x in fs if x]
                        if not fs:
                            undecided(f"recorded activities at {T.show(b)[:100]}")
                        if not col(a, "end_time"):
                            fail("the recorded activity is found by its start time, not by the time at which the event ended it")
                        if any(x[1] == "t0" for x in fs):
                            fail("the recorded activity is found by the time before the step (t0), which may be earlier than the event")
                        if not any(x[1] == "t1" for x in fs):
                            undecided(f"recorded activities at {T.show(b)[:100]}")
                        got.add("end")
                        break
                else:
                    undecided(f"recorded activities selected by {T.show(m)[:150]}")
            if got != {"activity", "end"}:
                fail(f"the recorded activity is found by {' and '.join(sorted(got)) or 'nothing'} only")
            for f, w in st.facts.items():       # several rows may record one execution
                if w and f[0] in ("eq", "eq0") and any(x[0] == "len" and rows(x[1]) is not None for x in subterms(f)):
                    fail("an activity is found only if a single row records the execution; several objects may have recorded it")
            n[0] += 1
        ck.walk(G, (), lambda s, e: s, at_exit)
        if not n[0]:
            undecided("no activity is found")
        return {"paths": n[0]}

    def rounded(t):
        """(x, digits) of round(x, digits); digits None when not rounded"""
        if t[0] == "call" and t[1] in ("round", "numpy.round", "numpy.around"):
            kw = dict(t[3])
            n = t[2][1] if len(t[2]) > 1 else kw.get("ndigits", kw.get("decimals", T.num(0)))
            return t[2][0], n
        if t[0] == "mcall" and t[2] == "round":
            kw = dict(t[3])
            return t[1], kw.get("", kw.get("decimals", T.num(0)))
        return t, None

    def clock():
        """Both ends of the comparison of times are seconds, rounded to the same number of digits."""
        digits = set()

        def of_find(s, kind, v, st):
            for x in subterms(v) if kind == "return" else ():
                if x[0] == "eq":
                    for a, b in ((x[1], x[2]), (x[2], x[1])):
                        if any(y in (attr(("param", "recorded_activities_df"), "end_time"),
                                     ("key", ("param", "recorded_activities_df"), ("str", "end_time"))) for y in subterms(a)):
                            digits.add((rounded(a)[1], rounded(b)[1]))
        ck.walk(ck.graph(CLS, "_find_cp_act"), (), lambda s, e: s, of_find)
        if len(digits) != 1:
            undecided("how the times are compared")
        da, db = next(iter(digits))
        G = ck.graph(CLS, "get_dependency_list", opaque=OPAQUE)
        sets, given = {}, []

        def step(s, e):
            if e.kind == "setattr" and e.name == "end_time" or e.kind == "setitem" and e.args.get("key", e.name) in (
                    ("str", "end_time"), "end_time"):
                sets.setdefault(e.recv, []).append((e.val, e))
            for x in [e.val] + list(e.args.values()) if e.val is not None else []:
                for y in subterms(x) if isinstance(x, tuple) else ():
                    if y[0] in ("res", "mcall") and y[2] == "_find_cp_act":
                        kw = y[4] if y[0] == "res" else y[3]
                        given.append(dict(kw).get("recorded_activities_df", dict(kw).get("1")))
            return s
        ck.walk(G, (), step, lambda *a: None)
        if len(sets) != 1 or not given:
            undecided("the times of the recorded activities as numbers")
        recv, vs = next(iter(sets.items()))
        if recv == attr(SELF, "recorded_activities_df"):
            fail("the times of the recorded activities themselves are overwritten by numbers", vs[0][1])
        for g in given:
            if g != recv:
                undecided(f"the activities are looked up in {T.show(g)[:100] if g else g}")
        for v, e in vs:
            x, n = rounded(v)
            if da is not None:
                undecided("the times are rounded in several places", e)
            if n != db:
                if n is not None and n[0] != "num" or db is not None and db[0] != "num":
                    undecided("the number of digits of the times", e)
                fail(f"the recorded times are rounded to {T.show(n) if n else 'no'} digits, those of the steps to "
                     f"{T.show(db) if db else 'no'}", e)
            if n is not None and not 1 <= n[1] <= 6:
                fail(f"times are compared up to {T.show(n)} digits: " + ("activities that end shortly after each other are confused"
                     if n[1] < 1 else "beyond the precision of the recorded date times"), e)
            if n is None:
                fail("the times are compared without rounding", e)
            c = None
            if x[0] == "poly" and len(x[1]) == 1 and len(x[1][0][0]) == 1:
                (b, k), = x[1][0][0]
                c, x = x[1][0][1], b
            if x[0] == "mcall" and x[2] == "astype" and T.show(dict(x[3]).get("", T.NONE)).strip("'") in ("int64", "int"):
                if x[1] not in (attr(recv, "end_time"), ("key", recv, ("str", "end_time"))):
                    undecided("the column of the times", e) if imprecise(x[1]) and not (
                        any(y[0] == "attr" and y[2] == "start_time" for y in subterms(x[1]))) else fail(
                        f"the end times are {T.show(x[1])[:100]}", e)
                if c is None or c * 10**9 != 1:
                    fail(f"the recorded times, nanoseconds, are multiplied by {c or 1}: not the seconds of the clock", e)
            else:
                undecided(f"the times as numbers: {T.show(x)[:100]}", e)
        return {"times": len(vs)}

    def iterative():
        """No recursion over the recorded events, of which there are arbitrarily many one after the other."""
        c = ck.prog.find_class(CLS)
        n = 0
        for m in c.methods.values():
            for f in ast.walk(m.node):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    n += 1
                    for x in ast.walk(f):
                        if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == f.name or f is m.node and isinstance(
                                x.func, ast.Attribute) and x.func.attr == f.name and isinstance(x.func.value, ast.Name) and
                                x.func.value.id == "self"):
                            fail(f"{f.name} calls itself (line {x.lineno}): with many events one after the other the recursion limit is "
                                 "exceeded and no dependencies are found")
        if not n:
            undecided("no functions")
        return {"functions": n}

    ck.ob("recorded steps", "CriticalPathEnvironment", recorded)
    ck.ob("dependencies between timeouts", CLS, extraction)
    ck.ob("activity of an event", CLS, lookup)
    ck.ob("times compared", CLS, clock)
    ck.ob("any number of events", CLS, iterative)
