"""Plugin loops and plugin call protocol of every activity kind.

register_plugin leaves the plugins sorted ascending by priority (or the loops sort them); pre_process and post_process
run the corresponding method of every registered plugin once, in that order, with the arguments they were given.  In
the main process of every activity kind pre_process runs once, before the own START entry, with environment, log and
activity, and post_process once, after the own STOP entry, additionally with the time pre-processing was entered and
the time of the START entry.
"""

import terms as T
from lib import ENV, SELF, attr, d, fail, imprecise, undecided
from rules.common import activities, log_call, plain, short

LEVEL = "other"
PLUGINS = attr(SELF, "plugins")
BYPRIO = ("key", ("bv",), ("str", "priority"))


def ascending(X):
    """Is X the plugins sorted ascending by priority?"""
    return X[0] == "sorted" and X[2] in (BYPRIO,) and X[3] in (T.FALSE, T.NONE)


def entries(t):
    """The collection behind copies and sortings."""
    while isinstance(t, tuple) and (t[0] in ("sorted", "copy", "stale") or t[0] == "list" and len(t[1]) == 1
                                    and t[1][0][0] == "splat"):
        t = t[1] if t[0] != "list" else t[1][0][1]
    return t


def registers(ck, q):
    """'sorted' when registration sorts, 'plain' otherwise."""
    G = ck.graph(q, "register_plugin")
    item = [d(("plugin", ("param", "plugin")), ("priority", ("param", "priority")))]
    out = set()

    def step(s, e):
        added, srt = s
        if e.kind == "mutate" and e.recv == PLUGINS:
            if e.name in ("append",) and e.args.get("0") in item:
                if added:
                    fail("a plugin is registered twice", e)
                return (True, False)
            if e.name == "sort":
                k, r = e.args.get("key"), e.args.get("reverse", T.FALSE)
                if r == T.TRUE:
                    fail("the plugins are sorted by descending priority", e)
                if k is not None and r == T.FALSE and sort_key(ck, G, k) == BYPRIO:
                    return (added, True)
                undecided("how the plugins are sorted", e)
            if e.name in ("clear", "pop", "remove"):
                fail("registered plugins are dropped", e)
            undecided("how the plugin is registered", e)
        if e.kind == "setattr" and e.recv == SELF and e.name == "plugins":
            v = e.val
            srt = False
            if v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "splat" and v[1][0][1][0] == "sorted":
                v = v[1][0][1]
            if v[0] == "sorted":
                if v[3] == T.TRUE:
                    fail("the plugins are sorted by descending priority", e)
                if v[2] != BYPRIO:
                    undecided("sort key", e) if imprecise(v[2]) else fail(
                        f"the plugins are sorted by {T.show(v[2])}, not by ascending priority", e)
                srt, v = True, v[1]
            if v == PLUGINS:
                return (added, srt)
            if v[0] == "list":
                if ("splat", PLUGINS) not in v[1]:
                    if imprecise(v):
                        undecided("plugins", e)
                    fail("the plugins registered before are dropped", e)
                rest = [x for x in v[1] if x != ("splat", PLUGINS)]
                if len(rest) == 1 and rest[0][0] == "item" and rest[0][1] in item and not added:
                    return (True, srt)
            undecided("plugins", e) if imprecise(v) else fail(f"plugins is set to {T.show(v)[:120]}", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return":
            if not s[0]:
                fail("the plugin is not registered")
            out.add(s[1])
    ck.walk(G, (False, False), step, at_exit)
    return "sorted" if out == {True} else "plain"


def sort_key(ck, G, k):
    if k == BYPRIO:
        return k
    if k[0] == "call" and k[1] == "operator.itemgetter" and len(k[2]) == 1:
        return ("key", ("bv",), k[2][0])
    f = G.engine
    try:
        from engine import State
        r = f.key_fn(k, State(), (G.entry, 0), G.entry.node)
        return r
    except Exception:
        return None


def loop(ck, q, meth, how):
    G = ck.graph(q, meth)
    params = [p for p, _, k in G.entry.params() if p != "self"]
    n = [0]
    sites = set()

    def scout(s, e):
        if e.kind == "iter":
            return (e.site, e.arg("elem"))
        if e.kind in ("yieldfrom", "call") and e.name in ("pre_process", "post_process") and s[1] is not None and \
                e.recv == ("key", s[1], ("str", "plugin")):
            sites.add(s[0])
        return s
    ck.walk(G, (None, None), scout)

    def okargs(e):
        a = dict(e.args)
        if meth == "pre_process":
            if a in ({"**": ("param", params[0])}, {"args_data": ("param", params[0])}):
                return a == {"**": ("param", params[0])}
        got = list(a.values())
        kinds = [v[0] for v in got]
        if meth == "post_process":
            if set(kinds) <= {"kwargs", "args"} and "kwargs" in kinds:
                return True
        if any(imprecise(v) for v in got):
            undecided("plugin arguments", e)
        return False

    # state: element, called, ended normally
    def step(s, e):
        el, called, end = s
        if e.kind in ("iter", "back", "break", "exhaust", "loop") and sites and e.site not in sites:
            return s
        if e.kind == "iter" and e.recv is not None and entries(e.recv) == PLUGINS:
            if e.recv[0] == "reversed" or e.recv[0] == "sorted" and not ascending(e.recv):
                fail(f"the plugins run in the order {T.show(e.recv)[:100]}", e)
            if how != "sorted" and not ascending(e.recv):
                fail("the plugins do not run in ascending priority: neither registration nor the loop sorts them", e)
            return (e.arg("elem"), 0, end)
        if e.kind == "iter" and e.recv is not None and T.mentions(e.recv, PLUGINS):
            if e.recv[0] == "reversed":
                fail("the plugins run in reverse order", e)
            if e.recv[0] in ("filter", "slice", "some", "without"):
                fail(f"only {T.show(e.recv)[:100]} run", e)
            undecided("the order of the plugins", e)
        if e.kind in ("yieldfrom", "call") and e.name in ("pre_process", "post_process") and e.recv != SELF:
            if e.kind == "call":
                return s
            if el is None or e.recv != ("key", el, ("str", "plugin")):
                undecided("which plugin runs", e)
            if e.name != meth:
                fail(f"{meth} runs the {e.name} of a plugin", e)
            n[0] += 1
            if called:
                fail("a plugin runs twice", e)
            if not okargs(e):
                fail(f"a plugin does not get the arguments given to {meth}", e)
            return (el, 1, end)
        if e.kind == "break" and el is not None:
            fail("not every plugin runs", e)
        if e.kind == "back" and el is not None:
            if not called:
                fail("a plugin is skipped", e)
            return (None, 0, end)
        if e.kind == "exhaust" and e.recv is not None and entries(e.recv) == PLUGINS:
            return (None, 0, True)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and not s[2]:
            if v is not None and imprecise(v):
                undecided("what runs the plugins")
            fail("not every plugin runs")
    ck.walk(G, (None, 0, False), step, at_exit)
    return n[0] or fail(f"{meth} runs no plugins")


def protocol(ck, q, only=None):
    """only: just this argument of post_process."""
    G = ck.activity(q)
    n = [0]
    base = {"env": ENV, "activity_log": SELF, "activity": SELF}

    def args_of(e):
        a = dict(e.args)
        for k in ("args_data", "**"):
            v = a.get(k)
            if v is not None and v[0] == "dict":
                a.pop(k)
                for s in v[1]:
                    if s[0] == "kv" and s[1][0] == "str":
                        a[s[1][1]] = s[2]
                    else:
                        undecided(f"arguments of {e.name}", e)
        return a

    # state: phase 0 before, 1 pre-processed, 2 started, 3 stopped, 4 post-processed; time of pre; time of start
    def step(s, e):
        ph, tp, ts = s
        lg = log_call(e)
        if lg and lg[0] == SELF and plain(lg[4]):
            if lg[1] == "START":
                if ph == 0 and not only:
                    fail("the START entry is written before the plugins' pre-processing", e)
                return (2, tp, e.now)
            if lg[1] == "STOP" and ph == 2:
                return (3, tp, ts)
            return s
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "pre_process":
            if only:
                return s
            n[0] += 1
            if ph != 0:
                fail("pre-processing runs " + ("again" if ph == 1 else "after the START entry"), e)
            check(e, base)
            return (1, e.now, None)
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "post_process":
            n[0] += 1
            if only:
                n[0] += 1
                if ts is not None:
                    check(e, {only: ("now", ts)})
                return s
            if ph != 3:
                fail("post-processing runs " + ("again" if ph == 4 else "before the STOP entry"), e)
            check(e, {**base, "start_preprocessing": ("now", tp), "start_activity": ("now", ts)})
            return (4, tp, ts)
        return s

    def check(e, want):
        a = args_of(e)
        for k, v in want.items():
            g = a.get(k)
            if k == "env" and g == attr(SELF, "env"):
                continue
            if g != v:
                if g is None:
                    fail(f"{e.name} does not get {k}", e)
                undecided(f"{k} of {e.name}", e) if imprecise(g) else fail(
                    f"{e.name} gets {T.show(g)[:100]} as {k}, expected {T.show(v)}", e)

    def at_exit(s, kind, v, st):
        if kind == "return" and s[0] != 4 and not only:
            fail({0: "pre-processing is not run", 1: "no START entry", 2: "no STOP entry",
                  3: "post-processing is not run"}[s[0]])
    ck.walk(G, (0, None, None), step, at_exit)
    return n[0]


def run(ck):
    seen = set()
    for q in activities(ck):
        c = ck.prog.classes[q]
        fs = tuple(c.lookup(m).qual for m in ("register_plugin", "pre_process", "post_process"))
        if fs not in seen:
            seen.add(fs)
            how = ["plain"]

            def reg():
                how[0] = registers(ck, q)
                return 1
            ck.ob("registration of plugins", short(q), reg)
            for m in ("pre_process", "post_process"):
                ck.ob("plugin loop", f"{short(q)}.{m}", lambda m=m: loop(ck, q, m, how[0]))
        ck.ob("plugin protocol", short(q), lambda: protocol(ck, q))
