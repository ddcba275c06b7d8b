"""Path analysis of the recording environment's step (effect graph, queue before and after as distinct values).

On every path with a nonempty queue: exactly one original step, no call that schedules, no write to the queue, the clock, the id
counter or an event, no swallowed exception; exactly one record with the head of the queue as it was before the step and the
clock before and after; and one pair (processed id, new id) for exactly the ids in the queue after but not before the step.
"""

import ast

import terms as T
from lib import AnalysisBroken, SELF, attr, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["simpy keeps scheduled events as (time, priority, id, event) in the heap _queue, next event first"]
SCHED = {"schedule", "timeout", "process", "event", "run", "all_of", "any_of", "succeed", "fail", "trigger", "interrupt", "request",
         "release", "put", "get", "peek_pop"}
OWN = {"_queue", "_now", "_eid", "_active_proc", "now"}
HEAP = {"heappop", "heappush", "heapify", "heapreplace", "heappushpop", "next"}
WORDS = set("poly set each slice list splat vol key bv num param item filter not exists eq none dict sorted tuple at in".split())
DEFAULT = ["t0", "t1", "e_id", "type", "value", "prio", "event_object"]


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("copy", "stale"):
        t = t[1]
    return t


def head(i):
    return ("key", ("key", ("vol", "S0", SELF, "_queue"), T.num(0)), T.num(i))


def recording_class(ck):
    for q, c in sorted(ck.prog.classes.items()):
        if not q.startswith("composite.") and any("simpy" in b and b.endswith("Environment") for b in c.ext_bases()):
            if c.lookup("step") is not None:
                return c
    raise AnalysisBroken("no recording environment found")


def columns(ck):
    for f in ck.prog.all_functions():
        if "critical_path" not in f.module.name:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "columns" and isinstance(k.value, (ast.List, ast.Tuple)):
                        names = [e.value for e in k.value.elts if isinstance(e, ast.Constant)]
                        if "e_id" in names and len(names) == len(k.value.elts):
                            return names
    return DEFAULT


def queue_ids(t, pre):
    """Is t the collection of the ids in the queue before (pre) / after the step?"""
    t = strip(t)
    if not isinstance(t, tuple) or t[0] not in ("set", "list", "tuple", "gen", "dict") or len(t[1]) != 1:
        return False
    e = t[1][0]
    if e[0] != "each" or e[3] != () or e[2] != ("item", ("key", ("bv",), T.num(2))):
        return False
    return queue(e[1], pre)


def queue(t, pre):
    t = strip(t)
    return t[0] == "vol" and t[2] == SELF and t[3] == "_queue" and (t[1] == "S0") == pre


def kept(t):
    """Is t a value kept on the environment since an earlier step?  Events scheduled between two steps are not in it."""
    t = strip(t)
    if t[0] in ("set", "list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
        return kept(t[1][0][1])
    return t[0] == "attr" and t[1] == SELF and t[2] not in OWN and not OVERRIDDEN


OVERRIDDEN = []         # further methods of the environment that the recording replaces


def extra(c):
    """What does a further condition on the entry (bv) of the queue mean: True: none is lost; False: some may be; None: unknown"""
    neg = False
    while c[0] in ("not", "cond"):
        neg = not neg if c[0] == "not" else neg
        c = c[1]
    if c == T.TRUE:
        return True
    if c[0] == "lt0":
        for b in (("bv",),):
            t0 = ("key", b, T.num(0))
            for now in [x for x in subterms(c) if x[0] == "vol" and x[2] == SELF and x[3] in ("now", "_now")]:
                if c == T.lt0(T.sub(t0, now)):          # t0 < now never holds
                    return neg
                if c == T.lt0(T.sub(now, t0)):          # events scheduled for this very moment are not later than now
                    return False
            i, h = ("key", b, T.num(2)), head(2)
            if c == T.lt0(T.sub(h, i)):
                return not neg                          # an id given out in this step is greater than that of its cause
    if c[0] == "isinstance" or c[0] == "call" and c[1] == "isinstance":
        return False
    if any(x[0] in ("key",) and x[1] == ("bv",) and x[2] in (T.num(0), T.num(1), T.num(3)) for x in subterms(c)) and not imprecise(c):
        return False
    return None


def entries(t, pre):
    """(element, the further conditions) when t runs through the ids in the queue, or None"""
    t = strip(t)
    if not isinstance(t, tuple):
        return None
    if t[0] == "splat":
        return entries(t[1], pre)
    if t[0] == "filter" and queue(t[1], pre):
        return t[2]
    if t[0] in ("set", "list", "tuple", "gen") and len(t[1]) == 1:
        if t[1][0][0] == "splat":
            return entries(t[1][0][1], pre)
        if t[1][0][0] == "each":
            _, src, item, conds = t[1][0]
            if src[0] == "filter":
                src, conds = src[1], tuple(src[2]) + tuple(conds)
            if queue(src, pre) and item == ("item", ("key", ("bv",), T.num(2))):
                return conds
    return None


def new_ids(t):
    """Is t the collection of the newly scheduled ids?  True / None (not recognised) / False"""
    t = strip(t)
    while t[0] in ("sorted", "reversed") and len(t) > 1:
        t = strip(t[1])
    if t[0] == "filter" and len(t[2]) == 1:
        el = ("key", ("bv",), T.num(2)) if queue(t[1], False) else ("bv",) if queue_ids(t[1], False) else None
        if el is not None and is_in(t[2][0], el) is False:
            return True
    if t[0] == "poly":
        ms = dict(t[1])
        if len(ms) == 2:
            plus = [k for k, c in ms.items() if c == 1]
            minus = [k for k, c in ms.items() if c == -1]
            if len(plus) == len(minus) == 1 and len(plus[0]) == len(minus[0]) == 1:
                p, m = plus[0][0][0], minus[0][0][0]
                if queue_ids(p, False) and (queue_ids(m, True)):
                    return True
                if queue_ids(p, False) and kept(m):
                    return False
                if queue_ids(m, True) and entries(p, False):
                    return every(extra(c) for c in entries(p, False))
    if t[0] == "mcall" and t[2] == "difference" and queue_ids(t[1], False):
        a = t[3] if len(t) > 3 else ()
        if any(kept(v) for _, v in a):
            return False
        if any(queue_ids(x, True) for x in subterms(a)):
            return True
    if t[0] in ("set", "list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
        return new_ids(t[1][0][1])
    if t[0] in ("set", "list", "tuple", "gen") and len(t[1]) == 1 and t[1][0][0] == "each":
        _, src, item, conds = t[1][0]
        if src[0] == "filter":
            src, conds = src[1], src[2]
        el = ("key", ("bv",), T.num(2)) if queue(src, False) else ("bv",) if queue_ids(src, False) else None
        if el is not None and item == ("item", el) and len(conds) == 1:
            c = conds[0]
            if is_in(c, el) is False:
                return True
    if t[0] == "slice" and new_ids(t[1]) is not None and t[2:] and any(x is not None and x != T.NONE and x != T.num(0) for x in t[2:]):
        return False
    cs = entries(t, False)
    if cs:
        fresh = [c for c in cs if is_in(c, ("key", ("bv",), T.num(2))) is False]
        rest = [extra(c) for c in cs if c not in fresh]
        if fresh:
            return every(rest)
        if None not in rest:
            return False            # what was scheduled before the step is not left out
    if imprecise(t) or any(x[0] not in WORDS for x in subterms(t)):
        return None
    if not any(queue(x, False) for x in subterms(t) if x[0] == "vol"):
        return None        # perhaps read through the list taken before the step
    return False


def every(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def is_in(atom, el):
    """The condition says that el is (True) / is not (False) among the ids before the step."""
    neg = False
    while atom[0] in ("not", "cond"):
        neg = not neg if atom[0] == "not" else neg
        atom = atom[1]
    if atom[0] == "in" and strip(atom[1]) == el and queue_ids(atom[2], True):
        return not neg
    if atom[0] == "exists" and queue(atom[1], True):
        for b in (("bv",), ("bv", 1), ("bv", 2)):
            if b != el and atom[2] in (T.eq(("key", b, T.num(2)), el), ("eq", ("key", b, T.num(2)), el), ("eq", el, ("key", b, T.num(2)))):
                return not neg
    return None


def step_of(ck, c):
    G = ck.graph(c.qual, "step", volatile=("now", "_now"))
    names = columns(ck)
    n = [0]
    OVERRIDDEN[:] = [m for m in c.methods if m in SCHED]

    def aliasing(t):
        """May the ids after have been read through the list taken before?"""
        return any(queue(x, True) for x in subterms(t) if x[0] == "vol") and not any(
            queue(x, False) for x in subterms(t) if x[0] == "vol")

    def pair(e, a, el):
        if a is None or a[0] not in ("tuple", "list") or len(a[1]) != 2 or any(s[0] != "item" for s in a[1]):
            undecided("the recorded pair", e) if a is None or imprecise(a) else fail(f"records {T.show(a)[:150]}", e)
        x, y = strip(a[1][0][1]), strip(a[1][1][1])
        if x != head(2):
            undecided("the recorded cause", e) if imprecise(x) else fail(
                f"the recorded cause is {T.show(x)[:150]}, not the id of the event that is processed", e)
        if y != el:
            undecided("the recorded effect", e) if imprecise(y) else fail(
                f"the recorded effect is {T.show(y)[:150]}, not a new event", e)

    def step(s, e):
        stepped, recorded, eff, lp = s
        # the state of the automaton: eff = how the pairs are recorded: None, "empty", "done"; lp = (collection, kind, appended, isnew)
        if e.kind == "assume":
            val = e.val == ("bool", True)
            a = e.recv
            if not stepped and a[0] == "truth" and queue(a[1], True) and not val:
                return None
            if not stepped and a[0] in ("lt0", "eq0") and any(x[0] == "len" and queue(x[1], True) for x in subterms(a)):
                if (a[0] == "lt0") != val:
                    return None
            if a[0] == "truth" and queue(a[1], False) and not val:
                return (stepped, recorded, eff or "empty", lp)
            if a[0] == "truth" and new_ids(a[1]) and not val:
                return (stepped, recorded, eff or "empty", lp)
            if a[0] == "lt0" and not val and any(
                    x[0] == "len" and new_ids(x[1]) and a == T.lt0(T.neg(x)) for x in subterms(a)):
                return (stepped, recorded, eff or "empty", lp)
            if lp is not None and lp[1] == "all":
                el = lp[3]
                r = is_in(a, el)
                if r is not None:
                    return (stepped, recorded, eff, (lp[0], lp[1], lp[2], el, (r != val), lp[5]))
            return s
        if e.kind == "super":
            if e.name == "step":
                if stepped:
                    fail("the original step is performed twice", e)
                n[0] += 1
                return (True, recorded, eff, lp)
            fail(f"calls {e.name} of the simulation environment", e)
        if e.kind == "call" and e.recv == SELF and e.name in SCHED:
            fail(f"the recording itself calls {e.name}", e)
        if e.kind == "call" and e.name in SCHED and e.recv is not None and any(queue(x, True) or queue(x, False) for x in subterms(e.recv)
                                                                       if x[0] == "vol"):
            fail(f"the recording calls {e.name} of an event", e)
        if e.kind == "call" and str(e.name).rsplit(".", 1)[-1] in HEAP and any(
                x[0] == "vol" and x[3] in OWN or x[0] == "attr" and x[2] in OWN for v in e.args.values() for x in subterms(v)):
            fail(f"the recording changes the queue by {e.name}", e)
        if e.kind == "setattr" and (e.recv == SELF and e.name in OWN or e.recv is not None and any(
                x[0] == "vol" and x[3] == "_queue" for x in subterms(e.recv))):
            fail(f"the recording writes {T.show(e.recv)[:80]}.{e.name}", e)
        if e.kind in ("mutate", "setitem", "delitem", "pop") and e.recv is not None and any(
                x[0] == "vol" and x[3] in ("_queue", "callbacks") or x[0] == "attr" and x[2] in OWN for x in subterms(e.recv)):
            fail(f"the recording changes {T.show(e.recv)[:100]}", e)
        if e.kind in ("mutate",) and e.recv == attr(SELF, "data_step"):
            if e.name != "append":
                undecided("how a step is recorded", e)
            if not stepped:
                pass
            if recorded:
                fail("one step is recorded twice", e)
            a = e.args.get("0")
            if a is None or a[0] not in ("tuple", "list") or any(x[0] != "item" for x in a[1]):
                undecided("the record of a step", e)
            if len(a[1]) != len(names):
                fail(f"a record has {len(a[1])} fields, expected {len(names)}", e)
            for nm, (_, v) in zip(names, a[1]):
                v = strip(v)
                ok = field(nm, v)
                if ok is False:
                    undecided(f"the recorded {nm}", e) if imprecise(v) else fail(
                        f"the recorded {nm} is {T.show(v)[:150]}", e)
                if nm == "t1" and not stepped:
                    fail("the time after the step is recorded before it", e)
            n[0] += 1
            return (stepped, True, eff, lp)
        DCE = attr(SELF, "data_cause_effect")
        whole = None
        if e.kind == "setattr" and e.recv == SELF and e.name == "data_cause_effect" and e.val is not None:
            v = strip(e.val)
            if v[0] == "op" and v[1] == "Add" and strip(v[2]) == DCE:
                whole = v[3]                                    # += keeps the records
            elif v[0] == "poly" and dict(v[1]).get(((DCE, 1),)) == 1 and len(v[1]) == 2:
                (m, k), = [x for x in v[1] if x[0] != ((DCE, 1),)]
                whole = m[0][0] if k == 1 and len(m) == 1 and m[0][1] == 1 else None
            elif v[0] in ("list", "tuple") and len(v[1]) == 2 and v[1][0] == ("splat", DCE):
                whole = ("list", v[1][1:])
            if whole is None:
                undecided("the record of new events is replaced", e) if imprecise(v) else fail(
                    f"the record of new events becomes {T.show(v)[:150]}", e)
        if whole is not None or e.kind == "mutate" and e.recv == DCE:
            if not stepped:
                fail("new events are recorded before the step", e)
            if e.name == "append":
                if lp is None:
                    a = e.args.get("0")
                    undecided("which new events are recorded", e) if a is None or imprecise(a) or any(
                        x[0] in ("at", "call", "mcall") for x in subterms(a)) else fail(
                        f"records the pair {T.show(a)[:200]}, whatever is new", e)
                pair(e, e.args.get("0"), lp[3])
                if lp[1] == "all" and lp[4] is not True:
                    fail("events that were already scheduled are recorded as new", e)
                if lp[2]:
                    fail("a new event is recorded twice", e)
                n[0] += 1
                return (stepped, recorded, eff, lp[:2] + (True,) + lp[3:])
            if e.name == "extend" or whole is not None:
                a = e.args.get("0") if whole is None else strip(whole)
                if a in (("list", ()), ("tuple", ())):
                    return s
                if a is None or a[0] not in ("list", "tuple", "set", "gen") or len(a[1]) != 1 or a[1][0][0] != "each":
                    undecided("which new events are recorded", e)
                _, src, item, conds = a[1][0]
                full = new_ids(src) if conds == () else None
                if full is not True:
                    el = ("key", ("bv",), T.num(2)) if queue(src, False) else ("bv",)
                    if (queue(src, False) or queue_ids(src, False)) and len(conds) == 1 and is_in(conds[0], el) is False:
                        pair(e, item[1], el)
                        return (stepped, recorded, "done", lp)
                    undecided("which new events are recorded", e) if full is None else fail(
                        f"records {T.show(src)[:200]} as the new events", e)
                pair(e, item[1], ("bv",))
                n[0] += 1
                return (stepped, recorded, "done", lp)
            undecided("how new events are recorded", e)
        if e.kind in ("loop", "iter") and e.recv is not None:
            X = strip(e.recv)
            el = e.args.get("elem") if isinstance(e.args, dict) and e.kind == "iter" else None
            if e.kind == "loop" and lp is None:
                return s
            if e.kind == "iter":
                missed = lp[5] if lp is not None and lp[0] == X else False
                r = new_ids(X)
                if r is True:
                    if X[0] == "filter" and queue(X[1], False):
                        el = ("key", el, T.num(2))
                    return (stepped, recorded, eff, (X, "new", False, el, None, missed))
                if stepped and (queue(X, False) or queue_ids(X, False)):
                    idt = ("key", el, T.num(2)) if queue(X, False) else el
                    return (stepped, recorded, eff, (X, "all", False, idt, None, missed))
                if r is False and stepped and any(x[0] == "vol" and x[3] == "_queue" for x in subterms(X)):
                    return (stepped, recorded, eff, (X, "wrong", False, el, None, missed))
            return s
        if e.kind in ("back", "exhaust", "break"):
            X = strip(e.recv) if e.recv is not None else None
            if lp is not None and (X == lp[0] or e.kind == "break"):
                missed = lp[5] or not lp[2] and not (lp[1] == "all" and lp[4] is False) or e.kind == "break"
                if lp[2] and lp[1] == "wrong":
                    fail(f"records {T.show(lp[0])[:250]} as the new events", e)
                if e.kind == "back":
                    return (stepped, recorded, eff, (lp[0], "over", True, lp[3], None, missed))
                return (stepped, recorded, eff if missed else "done", None)
            if e.kind == "exhaust" and X is not None and stepped and (
                    new_ids(X) is True or queue(X, False) or queue_ids(X, False)):
                return (stepped, recorded, eff or "empty", None)
            return s
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        if not s[0]:
            fail("the original step is not performed")
        if not s[1]:
            fail("a step is not recorded")
        if s[2] is None:
            loops = [e.recv for o in G.out for e, _ in o if e is not None and e.kind == "loop" and e.recv is not None]
            used = {strip(y[1]) for o in G.out for e, _ in o if e is not None and e.kind == "mutate" and e.recv == attr(
                SELF, "data_cause_effect") for a in e.args.values() for y in subterms(a) if y[0] == "at"}
            loops = [x for x in loops if strip(x) in used]
            for x in loops:
                if new_ids(x) is False and not aliasing(x):
                    fail(f"records {T.show(x)[:250]} as the new events")
            if any(new_ids(x) is None or aliasing(x) or imprecise(x) for x in loops):
                undecided("which new events are recorded")
            fail("the newly scheduled events are not recorded")
    ck.walk(G, (False, False, None, None), step, at_exit)
    return n[0] or fail("nothing is recorded")


def field(nm, v):
    if nm in ("t0", "t1"):
        if v[0] != "vol" or v[2] != SELF or v[3] not in ("now", "_now"):
            return False
        return (v[1] == "S0") == (nm == "t0")
    if nm == "e_id":
        return v == head(2)
    if nm == "prio":
        return v == head(1)
    if nm == "event_object":
        return v == head(3)
    if nm == "type":
        return v == ("call", "type", (head(3),), ()) or v[0] == "attr" and v[1] == head(3) and v[2] == "__class__"
    if nm == "value":
        return v[0] in ("vol",) and v[2] == head(3) and v[3] in ("value", "_value") or v in (
            attr(head(3), "value"), attr(head(3), "_value"))
    return True


def swallows(ck, c):
    n = 0
    for f in ck.prog.all_functions():
        if f.cls is None or f.cls.qual != c.qual:
            continue
        ck.funcs.add(f.qual)
        for t in ast.walk(f.node):
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "step":
                n += 1
            if isinstance(t, ast.Try) and t.handlers and any(
                    isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and "step" in y.func.attr
                    for b in t.body for y in ast.walk(b)):
                for h in t.handlers:
                    if not (h.body and isinstance(h.body[-1], ast.Raise)):
                        fail(f"{f.qual} (line {h.lineno}): an exception of the original step is swallowed")
        for t in ast.walk(f.node):
            if isinstance(t, ast.Call) and (t.func.id if isinstance(t.func, ast.Name) else getattr(t.func, "attr", "")) in HEAP and any(
                    isinstance(y, ast.Attribute) and y.attr in OWN for a in t.args for y in ast.walk(a)):
                fail(f"{f.qual} (line {t.lineno}): {ast.unparse(t)} changes the state of the simulation environment")
        if f.name in ("schedule", "run", "timeout", "process", "event", "all_of", "any_of", "peek", "now"):
            n += passes_on(ck, c, f)
        if f.name == "__init__":
            G = ck.graph(c.qual, "__init__")
            for o in G.out:
                for e, _ in o:
                    if e is not None and e.kind == "call" and e.recv == SELF and e.name in SCHED:
                        fail(f"the environment is created with an event of its own: {e.name}", e)
    return n


def passes_on(ck, c, f):
    """A replaced method of the environment hands its arguments on to the original, once, and returns what that returns."""
    G = ck.graph(c.qual, f.name)
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs][1:]

    def step(s, e):
        if e.kind == "super":
            if e.name != f.name:
                fail(f"{f.name} calls the original {e.name}", e)
            if s:
                fail(f"{f.name} calls the original twice", e)
            got = [v for v in e.args.values()]
            for v in got:
                if not (v[0] == "param" or v[0] == "splat" and v[1][0] == "param"):
                    undecided(f"what {f.name} hands on", e) if imprecise(v) else fail(
                        f"{f.name} hands on {T.show(v)[:120]} to the original", e)
            for a in names:
                if ("param", a) not in got:
                    fail(f"{f.name} does not hand on {a}", e)
            return 1
        if e.kind == "call" and e.recv == SELF and e.name in SCHED:
            fail(f"{f.name} calls {e.name}", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s:
            fail(f"{f.name} does not always call the original")
    ck.walk(G, 0, step, at_exit)
    return 1


def run(ck):
    c = recording_class(ck)
    ck.ob("one original step, one record, and the new events", c.qual.rsplit(".", 1)[-1], lambda: step_of(ck, c))
    ck.ob("errors of the original step are passed on", c.qual.rsplit(".", 1)[-1], lambda: swallows(ck, c))
