"""Typestate of the resource requests along every path of the move and the transfer.

Per resource the automaton tracks requested / held / released and the entry in the shared request mapping: a request is
only made where the branch found the resource absent from the mapping, the START and STOP entries and all work lie
between the wait for each required request and its release, and every return exit has each resource released and removed
from the mapping unless the branch found it among the kept resources, for every aliasing of the three roles.
"""

import terms as T
from lib import CONFIGS, D_, O_, P_, SELF, attr, fail, imprecise, subterms, undecided
from rules.common import activities, is_work, log_call, plain, short

LEVEL = "other"
ASSUMPTIONS = ["activities that share a request mapping run one after another", "the transferred amount is positive"]
RR = attr(SELF, "requested_resources")
KEEP = attr(SELF, "keep_resources")


def requests_in(v):
    """resources whose request the yielded term waits for, or None if it is something else."""
    if v[0] == "stale":
        v = v[1]
    if v[0] == "res" and v[2] == "request":
        return [v[3]]
    if v[0] == "key" and v[1] == RR:
        return [v[2]]
    if v[0] == "res" and v[2] == "all_of":
        ev = dict(v[4]).get("events")
        if ev is not None and ev[0] in ("list", "tuple"):
            out = []
            for s in ev[1]:
                if s[0] == "item":
                    out += requests_in(s[1]) or []
            return out
    return []


def kept(facts, r, single=None):
    """Do the facts say r is among the kept resources?  True / False / None"""
    if facts.get(T.isnone(KEEP)) is True or facts.get(T.truth(KEEP)) is False:
        return False
    BV = ("bv",)
    forms = [T.eq(r, attr(BV, "resource")), T.eq(r, BV)]
    if r[0] == "attr" and r[2] == "resource":
        forms += [T.eq(r[1], BV)]
    res = []
    for f in forms:
        v = facts.get(("exists", KEEP, f))
        if v is not None:
            res.append(v)
    for f in (T.eq(r, attr(KEEP, "resource")), T.eq(r, KEEP)):
        v = facts.get(f)
        if v is not None:
            res.append(v)
    for a, v in facts.items():
        if a[0] == "in" and a[1] == r and T.mentions(a[2], KEEP):
            if a[2][0] in ("list", "set", "tuple") and len(a[2][1]) == 1 and a[2][1][0] == (
                    "each", KEEP, ("item", attr(BV, "resource")), ()):
                res.append(v)
        if a[0] == "in" and r[0] == "attr" and a[1] == r[1] and a[2] == KEEP:
            res.append(v)
    if True in res:
        return True
    if False in res:
        return False
    return None


def decided(facts, r):
    """not kept: all ways of keeping are excluded (no list: both comparisons)"""
    if facts.get(T.isnone(KEEP)) is True or facts.get(T.truth(KEEP)) is False:
        return True
    if any(v is False and a[0] in ("exists", "in") and T.mentions(a, KEEP) and T.mentions(a, r)
           for a, v in facts.items()):
        return True
    return facts.get(T.eq(r, attr(KEEP, "resource"))) is False and facts.get(T.eq(r, KEEP)) is False


def check(ck, q, config, roles):
    G = ck.activity(q, config=config) if config else ck.activity(q)
    alias = CONFIGS[config][0] if config else {}
    need = []
    for r in roles:
        t = attr(alias.get(r, r), "resource")
        if t not in need:
            need.append(t)
    n = [0]
    # status per resource: (requested/held/released, in mapping) ; phase 0 before START, 1 working, 2 stopped
    NONE_ = ("none", False)

    def get(s, r):
        return dict(s).get(r, NONE_)

    def put(s, r, v):
        d = dict(s)
        d[r] = v
        return tuple(sorted(d.items()))

    def working(s, e, what):
        for r in need:
            st, _ = get(s, r)
            if st != "held":
                why = {"none": "is not requested", "req": "is requested but not waited for",
                       "rel": "has been given back"}[st]
                fail(f"{what} although {T.show(r)} {why}", e)

    def amount_positive(facts):
        return not any(v is False and a[0] == "lt0" and a[1][0] == "poly" and any(
            u[0] == "res" and u[2] == "determine_processor_amount" for u in subterms(a)) and not any(
            u[0] in ("res", "obs") and u[2] == "get_level" for u in subterms(a))
            and all(c < 0 for _, c in a[1][1]) for a, v in facts.items())

    def step(x, e):
        s, ph, bad = x
        if e.kind in ("iter", "exhaust") and e.recv == KEEP:
            v = True if e.kind == "iter" else e.facts.get(T.truth(KEEP))
            b = dict(bad)
            if e.kind == "exhaust" and any(a[0] == "cur" and not w and b.get(a[1]) is True for a, w in b.items()):
                return None         # no element matches, although one is known to match
            if v is not None:
                if b.get(T.truth(KEEP), v) != v or not v and any(a[0] == "exists" and w for a, w in b.items()):
                    return None
                b[T.truth(KEEP)] = v
                bad = tuple(sorted(b.items(), key=repr))
            return (s, ph, bad)
        if e.kind == "loop" and e.recv in (KEEP, None):
            return (s, ph, tuple(x for x in bad if x[0][0] != "cur"))
        if e.kind == "assume" and T.mentions(e.recv, KEEP):
            # what the branches tell about keeping (joins forget it); contradicting branches are infeasible
            b = dict(bad)
            v = e.val == T.TRUE
            a = e.recv
            el = next((u for u in subterms(a) if u[0] == "at" and u[1] == KEEP), None)
            if el is not None:
                a = ("exists", KEEP, T.bind(a, el))
                if not v:
                    b.setdefault(("cur", a), False)
                    return (s, ph, tuple(sorted(b.items(), key=repr)))
                b[("cur", a)] = True
            if b.get(a, v) != v:
                return None
            b[a] = v
            if v and a[0] == "exists" and b.get(T.truth(KEEP)) is False:
                return None
            if b.get(T.isnone(KEEP)) is True and any(w and k != T.isnone(KEEP) for k, w in b.items()):
                return None
            bad = tuple(sorted(b.items(), key=repr))
        if e.kind == "assume" and e.recv is not None:
            a = e.recv
            if a[0] == "in" and a[2] == RR:
                st, _ = get(s, a[1])
                if e.val == T.TRUE:
                    if st in ("none", "rel"):
                        s = put(s, a[1], ("held", True))
                else:
                    s = put(s, a[1], NONE_)
                return (s, ph, bad)
            if not amount_positive({a: e.val == T.TRUE}):
                return None
            return (s, ph, bad)
        if e.kind == "call" and e.name == "request":
            n[0] += 1
            st, _ = get(s, e.recv)
            if st == "held" or st == "req":
                fail(f"{T.show(e.recv)} is requested again although it is already held", e)
            if e.facts.get(("in", e.recv, RR)) is not False and st != "rel":
                if not any(a[0] == "in" and a[2] == RR and a[1] == e.recv for a in e.facts):
                    if any(T.mentions(a, RR) and imprecise(a) for a in e.facts):
                        undecided("whether the resource is already held", e)
                    fail(f"{T.show(e.recv)} is requested without checking whether it is already held", e)
            return (put(s, e.recv, ("req", False)), ph, bad)
        if e.kind == "setitem" and e.recv == RR:
            k = e.arg("key") if e.arg("key") is not None else None
            if k is None:
                undecided("entry of the request mapping", e)
            st, _ = get(s, k)
            return (put(s, k, (st, True)), ph, bad)
        if e.kind == "delitem" and e.recv == RR or e.kind == "pop" and e.val is not None and e.val[0] == "key" and \
                e.val[1] == RR:
            k = e.arg("key") if e.kind == "delitem" else e.val[2]
            if k is None:
                undecided("entry of the request mapping", e)
            st, _ = get(s, k)
            return (put(s, k, (st, False)), ph, bad)
        if e.kind in ("mutate",) and e.recv == RR:
            if e.name == "clear":
                fail("all requests are forgotten, also those still held and those of other activities", e)
            undecided("change of the request mapping", e)
        if e.kind == "call" and e.name == "release":
            n[0] += 1
            r = e.recv
            st, ent = get(s, r)
            a = e.arg("request") or next(iter(e.args.values()), None)
            if a is None or requests_in(a) != [r]:
                undecided("what is released", e) if a is None or imprecise(a) else fail(
                    f"{T.show(r)} releases {T.show(a)[:100]}", e)
            if st in ("none", "rel"):
                fail(f"{T.show(r)} is released although it is not held", e)
            if ph == 2:
                k = kept({**e.facts, **dict(bad)}, r)
                if k is True:
                    fail(f"{T.show(r)} is given back although it is to be kept", e)
                if k is None:
                    if any(T.mentions(f, KEEP) and imprecise(f) for f in e.facts):
                        undecided("which resources are kept", e)
                    fail(f"{T.show(r)} is given back without regard to keep_resources", e)
            return (put(s, r, ("rel", ent)), ph, bad)
        if e.kind == "yield":
            rs = requests_in(e.val)
            for r in rs:
                st, ent = get(s, r)
                s = put(s, r, ("held", ent))
            if ph == 1 and not rs and is_work(e):
                working(s, e, "the activity works")
            return (s, ph, bad)
        lg = log_call(e)
        if lg and lg[0] == SELF and plain(lg[4]):
            if lg[1] == "START":
                working(s, e, "the work starts")
                for r, (st, ent) in s:
                    if st == "held" and not ent:
                        fail(f"the request of {T.show(r)} is not recorded", e)
                return (s, 1, bad)
            if lg[1] == "STOP" and ph == 1:
                working(s, e, "the work ends")
                return (s, 2, bad)
        if e.kind == "yieldfrom" and ph == 1 and is_work(e):
            working(s, e, "the activity works")
        return (s, ph, bad)

    def at_exit(x, kind, v, st):
        s, ph, bad = x
        if kind != "return":
            return
        if any(dict(bad).get(a, w) != w for a, w in st.facts.items()):
            return      # contradicting branches
        for r, (w, ent) in s:
            if w in ("held", "req"):
                fs = {**st.facts, **dict(bad)}
                k = kept(fs, r)
                if k is False and not decided(fs, r):
                    k = None
                if k is True:
                    continue
                if k is None and any(T.mentions(f, KEEP) and imprecise(f) for f in st.facts):
                    undecided("which resources are kept")
                fail(f"{T.show(r)} is not given back at the end" + ("" if k is False else
                     ", whether or not it is to be kept"))
            if w == "rel" and ent:
                fail(f"{T.show(r)} is released but still counts as requested")
            if w == "none" and ent:
                undecided("the request mapping")
    ck.walk(G, ((), 0, ()), step, at_exit)
    return n[0] or fail("no resource is requested")


def given(ck, q, name, empty):
    """The constructor keeps the mapping / list it is given; without one it makes an empty one of its own."""
    G = ck.graph(q, "__init__")
    par = ("param", name)
    n = [0]

    def step(s, e):
        if e.kind == "setattr" and e.recv == SELF and e.name == name:
            n[0] += 1
            v = e.val
            if v == par and e.facts.get(T.isnone(par)) is not True or v == T.NONE and e.facts.get(T.isnone(par)):
                return True
            if e.facts.get(T.isnone(par)) is True or name == "keep_resources" and e.facts.get(T.truth(par)) is False:
                if v[0] in empty and not v[1]:
                    return True
                undecided(f"{name} when none are given", e) if imprecise(v) else fail(
                    f"{name} is {T.show(v)[:100]} when none are given", e)
            if v[0] in ("copy", "list") and name == "keep_resources" and (
                    v == ("copy", par) or v == ("list", (("star", par),))):
                return True
            undecided(name, e) if imprecise(v) else fail(
                f"{name} is {T.show(v)[:100]}, not what the activity was given", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s:
            fail(f"{name} is not kept")
    ck.walk(G, False, step, at_exit)
    return n[0]


def run(ck):
    generic = ck.prog.find_class("GenericActivity")
    if generic is not None:
        ck.ob("given requests", short(generic.qual), lambda: given(ck, generic.qual, "requested_resources", ("dict",)))
        ck.ob("given resources to keep", short(generic.qual), lambda: given(ck, generic.qual, "keep_resources", ("list", "tuple", "set")))
    for q in activities(ck):
        if short(q) == "MoveActivity":
            ck.ob("resources of a move", short(q), lambda: check(ck, q, None, [attr(SELF, "mover")]))
        elif short(q) == "ShiftAmountActivity":
            for c in CONFIGS:
                ck.ob("resources of a transfer", f"{short(q)}, {c}", lambda: check(ck, q, c, [P_, O_, D_]))
