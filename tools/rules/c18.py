"""Closed-form decision of the waiting branch, alias analysis of the weather data, polarity of the limit comparisons.

The weather plugin's pre-processing delays exactly on the branches where the start of the window determined for now lies
in the future, by the difference, once, labelled as waiting on weather, and only when a criterion exists.  Returning
constructor paths of a criterion have exactly one limit and store both as given.  Every comparison that involves the
maximum (minimum) is strict on the unworkable side and the two branches are mirror images.  No effect of the window
computation changes a value that aliases the user's data frame.
"""

import terms as T
from engine import _has
from lib import ENV, SELF, attr, d, fail, imprecise, subterms, undecided
from rules import c17
from rules.common import label_ref

LEVEL = "other"
ASSUMPTIONS = ["pandas: copy() and boolean or slice indexing (copy-on-write) give new frames"]
LOG, ACT = ("param", "activity_log"), ("param", "activity")
NOW = ("now", "E0")
CRIT = attr(SELF, "weather_criteria")


def nofloat(t):
    return T.subst(t, lambda x: nofloat(x[2][0]) if isinstance(x, tuple) and x and x[0] == "call" and x[1] == "float"
                   and len(x[2]) == 1 else None)


def waiting(ck):
    G = ck.graph("WeatherPluginActivity", "pre_process", {"env": ENV})
    rng = [None]
    n = [0]

    def step(s, e):
        if e.kind in ("call", "yieldfrom") and e.name == "delay_processing":
            n[0] += 1
            if e.kind == "yieldfrom":
                return (s[0], True, s[2])
            if s[0] is not None:
                fail("the activity is delayed twice", e)
            for k, w in (("activity_log", LOG), ("env", ENV)):
                g = e.arg(k)
                if g != w:
                    undecided(k, e) if g is None or imprecise(g) else fail(f"{k} of the delay is {T.show(g)[:80]}", e)
            if e.recv not in (ACT, LOG):
                undecided("who is delayed", e)
            lr = label_ref(e.arg("activity_label"))
            if lr is None:
                undecided("label of the waiting", e)
            if lr != (("str", "plugin"), ("str", "waiting on weather")):
                fail(f"the waiting is labelled {T.show(e.arg('activity_label'))[:120]}", e)
            if s[2] is None:
                undecided("the window is not determined before the delay", e)
            w = nofloat(e.arg("waiting"))
            want = T.sub(("key", s[2], T.num(0)), NOW)
            if w != nofloat(want):
                undecided("the delay", e) if imprecise(w, (s[2],)) else fail(
                    f"the delay is {T.show(w)[:160]}, expected start of the window - now", e)
            lt = T.lt0(nofloat(T.neg(want)))
            if not any(nofloat(a) == lt and v for a, v in e.facts.items()):
                if any(T.mentions(a, s[2]) and a[0] != "isinstance" and
                       (a[0] not in ("lt0", "eq0") or imprecise(nofloat(a), (s[2],))) for a in e.facts):
                    undecided("when the activity is delayed", e)
                fail("the activity is delayed although the window may have started already", e)
            return (e.res, s[1], s[2])
        if e.kind == "call" and e.name == "check_constraint":
            n[0] += 1
            a = e.arg("start_time")
            if a is None or nofloat(a) != NOW:
                undecided("the time the window is determined for", e) if a is None or imprecise(a) else fail(
                    f"the window is determined for {T.show(a)[:100]}, not for the present time", e)
            return (s[0], s[1], e.res)
        if e.kind in ("yield", "yieldfrom"):
            undecided("another delay", e)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        used = s[0] is not None and (s[1] or v == s[0])
        if s[0] is not None and not used:
            fail("the delay is prepared but not carried out")
        if used:
            return
        if st.facts.get(T.isnone(CRIT)) is True or st.facts.get(T.truth(CRIT)) is False:
            return
        if s[2] is None:
            fail("the weather is not looked up although there is a criterion")
        lt = T.lt0(nofloat(T.sub(NOW, ("key", s[2], T.num(0)))))
        le = T.lt0(nofloat(T.sub(("key", s[2], T.num(0)), NOW)))
        for a, val in st.facts.items():
            b = nofloat(a)
            if b == lt and val is False or b == le and val is True:
                return
        if any(T.mentions(a, s[2]) and a[0] not in ("isinstance", "lt0") for a in st.facts):
            undecided("when the activity is not delayed")
        fail("the activity is not delayed although the window may start later")
    ck.walk(G, (None, False, None), step, at_exit)
    return n[0] or fail("pre-processing never delays")


def criterion(ck):
    G = ck.graph("WeatherCriterion", "__init__")
    mx, mn = ("param", "maximum"), ("param", "minimum")
    fields = {k: ("param", k) for k in ("maximum", "minimum", "window_length", "window_delay", "condition", "name")}
    n = [0]

    def step(s, e):
        if e.kind == "setattr" and e.recv == SELF and e.name in fields:
            n[0] += 1
            return tuple(sorted(dict(s, **{e.name: e.val}).items()))
        return s

    def at_exit(s, kind, v, st):
        a, b = st.facts.get(T.isnone(mx)), st.facts.get(T.isnone(mn))
        if kind == "raise":
            if a is not None and b is not None and a != b:
                fail("a criterion with exactly one limit is rejected")
            return
        if kind != "return":
            return
        for k, w in fields.items():
            g = dict(s).get(k)
            if g is None:
                fail(f"{k} of the criterion is not stored")
            if g != w and not (w in (mx, mn) and g == T.NONE and st.facts.get(T.isnone(w)) is True):
                undecided(f"{k} of the criterion") if imprecise(g) else fail(f"{k} is stored as {T.show(g)[:100]}")
        if a is None or b is None:
            if any(mx in subterms(x) or mn in subterms(x) for x in st.facts if x[0] not in ("isnone",)):
                undecided("which limits are accepted")
            fail("a criterion is accepted without checking that exactly one of minimum and maximum is given")
        if a == b:
            fail("a criterion is accepted with " + ("neither limit" if a else "both limits"))
    ck.walk(G, (), step, at_exit)
    return n[0]


def attached(ck):
    q = ck.composite("WeatherBasic", "HasWeatherPluginActivity", "BasicActivity")
    G = ck.graph(q, "__init__")
    C, D = ("param", "metocean_criteria"), ("param", "metocean_df")
    n = [0]

    def step(s, e):
        if e.kind in ("call", "super") and e.name == "__init__":
            return (True, s[1])
        if e.kind == "call" and e.name == "register_plugin":
            n[0] += 1
            p = e.arg("plugin")
            if p is None or p[0] != "new" or not p[2].endswith(".WeatherPluginActivity"):
                undecided("the registered plugin", e)
            if not s[0]:
                fail("the plugin is registered before the activity is initialised", e)
            if s[1]:
                fail("the weather plugin is attached twice", e)
            a = dict(p[3])
            for k, w in (("weather_criteria", C), ("metocean_df", D)):
                g = a.get(k)
                if g != w:
                    undecided(k, e) if g is None or imprecise(g) else fail(
                        f"the weather plugin gets {T.show(g)} as {k}", e)
            return (s[0], True)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        none = [st.facts.get(T.isnone(x)) for x in (C, D)]
        if not s[1] and True not in none:
            fail("no weather plugin is attached although a criterion and weather data are given")
    ck.walk(G, (False, False), step, at_exit)
    G = ck.graph("WeatherPluginActivity", "__init__")

    def st2(s, e):
        if e.kind == "setattr" and e.recv == SELF and e.name in ("weather_criteria", "metocean_df"):
            n[0] += 1
            w = ("param", e.name)
            if e.val != w and e.val != ("call", "copy", (w,), ()) and not (
                    e.name == "metocean_df" and e.val[0] in ("copy", "mcall") and e.val[1] == w):
                undecided(e.name, e) if imprecise(e.val) else fail(f"{e.name} is stored as {T.show(e.val)[:100]}", e)
            return s | {e.name}
        return s

    def ex2(s, kind, v, st):
        if kind == "return" and len(s) < 2:
            fail("the plugin does not store its criterion and data")
    ck.walk(G, frozenset(), st2, ex2)
    return n[0]


# ---------------------------------------------------------------- the window computation
DATA = attr(SELF, "metocean_df")
FRESH = {"copy"}


def aliases_data(t):
    """Is the object that t denotes (part of) the user's frame itself?"""
    while isinstance(t, tuple):
        if t == DATA:
            return True
        if t[0] in ("stale", "attr", "vol"):
            t = t[2] if t[0] == "vol" else t[1]
            continue
        if t[0] == "key":
            if any(u[0] in ("lt0", "op", "eq0", "not") for u in subterms(t[2])):
                return False        # boolean selection: a new frame
            t = t[1]
            continue
        if t[0] == "mcall" and t[2] in ("set_index", "rename", "assign", "drop", "shift", "reset_index", "sort_values"):
            return False
        return False
    return False


def graph_pd(ck):
    return ck.graph("WeatherPluginActivity", "process_data")


MUTATORS = {"rename", "drop", "set_index", "reset_index", "sort_values", "fillna", "insert", "pop", "update", "append",
            "sort", "clear", "remove", "replace", "dropna"}


def unmodified(ck):
    n = [0]
    for cls, m, b in (("WeatherPluginActivity", "process_data", {}),
                      ("WeatherPluginActivity", "check_constraint", {}),
                      ("WeatherPluginActivity", "pre_process", {"env": ENV}),
                      ("WeatherPluginActivity", "__init__", {})):
        G = ck.graph(cls, m, b)

        def step(s, e):
            r = e.recv
            if m == "__init__":
                r = T.replace(r, ("param", "metocean_df"), DATA) if r is not None else None
            if e.kind in ("setitem", "delitem", "mutate") or e.kind == "call" and e.name in MUTATORS:
                n[0] += 1
                if e.kind == "call":
                    if e.name in ("rename", "drop", "set_index", "reset_index", "sort_values", "fillna", "replace",
                                  "dropna") and e.args.get("inplace") in (None, T.FALSE):
                        return s
                if r is not None and aliases_data(r):
                    fail("the weather data given by the user are modified", e)
            if e.kind == "setattr" and r is not None and r != SELF and aliases_data(r):
                fail("the weather data given by the user are modified", e)
            return s
        ck.walk(G, 0, step)
    return n[0]


def coefficient(p, x):
    """Coefficient of x in the polynomial p when x occurs linearly and only there."""
    c = None
    for m, k in T.to_poly(p).items():
        if m == ((x, 1),):
            c = k
        elif any(T.mentions(b, x) for b, _ in m):
            return None
    return c


PAR = ("param", "criterion")


def limits(ck):
    G = graph_pd(ck)
    mx, mn = attr(PAR, "maximum"), attr(PAR, "minimum")
    seen = set()

    def atoms(e):
        for t in (e.val, e.recv, *e.args.values(), *e.facts):
            if isinstance(t, tuple):
                for u in subterms(t):
                    if u[0] == "lt0":
                        yield u

    def look(u, e):
        for x, w, nm in ((mx, 1, "maximum"), (mn, -1, "minimum")):
            if T.mentions(u, x):
                c = coefficient(u[1], x)
                if c is None:
                    if imprecise(u):
                        return
                    undecided("comparison with the " + nm, e)
                seen.add((nm, u))
                if (c > 0) != (w > 0):
                    fail(f"a value exactly at the {nm} does not count as workable: {T.show(u)[-160:]}", e)

    def step(s, e):
        for u in atoms(e):
            look(u, e)
        return s

    def at_exit(s, kind, v, st):
        for u in st.facts:
            if u[0] == "lt0":
                look(u, None)
    ck.walk(G, 0, step, at_exit)
    for nm in ("maximum", "minimum"):
        if not any(x == nm for x, _ in seen):
            fail(f"the {nm} is never compared with the data")
    return len(seen)


def mirror(ck):
    G = graph_pd(ck)
    mx, mn = attr(PAR, "maximum"), attr(PAR, "minimum")
    got = {True: set(), False: set()}

    def norm(t, lim, ext):
        def f(u):
            if not isinstance(u, tuple) or not u:
                return None
            if u[0] == "lt0" and T.mentions(u, lim):
                p = u[1]
                c = coefficient(p, lim)
                if c is None:
                    return None
                x = T.sub(p, T.mul(T.num(c), lim))
                return ("over", f2(T.mul(x, T.num(-1 / c))))
            if u == lim:
                return ("limit",)
            return None

        def f2(x):
            return T.subst(x, lambda u: ("mcall", norm(u[1], lim, ext), "extreme", u[3]) if isinstance(u, tuple) and u and
                           u[0] == "mcall" and u[2] == ext else ("call", "extreme") + u[2:] if isinstance(u, tuple) and u
                           and u[0] == "call" and u[1] == ext else None)
        return T.subst(t, f)

    def add(e, kind, *ts):
        f = e.facts if kind != "exit" else e
        a = f.get(T.isnone(mx))
        b = f.get(T.isnone(mn))
        side = True if a is False or b is True else False if a is True or b is False else None
        if side is None:
            return
        lim, ext = (mx, "max") if side else (mn, "min")
        got[side].add((kind,) + tuple(norm(t, lim, ext) if isinstance(t, tuple) else t for t in ts))

    def step(s, e):
        if e.kind in ("setitem", "call"):
            add(e, e.kind, e.recv, e.name, tuple(sorted(("arg", str(k), v) for k, v in e.args.items())) or None, e.val)
        return s

    def at_exit(s, kind, v, st):
        add(st.facts, "exit", v)
    ck.walk(G, 0, step, at_exit)
    a, b = got[True], got[False]
    if not a or not b:
        undecided("the branches of maximum and minimum")
    if a != b:
        x, y = a - b, b - a
        d1 = next(iter(sorted(x, key=repr)), None)
        d2 = next(iter(sorted(y, key=repr)), None)
        if x and y and len(x) == len(y) and all(T.mentions(t, "over") or T.mentions(t, ("limit",)) for t in x | y):
            fail(f"maximum and minimum are treated differently: {T.show(d1)[-150:]} / {T.show(d2)[-150:]}")
        undecided("whether maximum and minimum are treated alike")
    return len(a) + len(b)


def run(ck):
    ck.ob("waiting on weather", "pre_process", lambda: waiting(ck))
    ck.ob("logged waiting", "delay_processing", lambda: c17.sequence(ck))
    ck.ob("exactly one limit", "WeatherCriterion", lambda: criterion(ck))
    ck.ob("attachment", "HasWeatherPluginActivity", lambda: attached(ck))
    ck.ob("limits", "process_data", lambda: limits(ck))
    ck.ob("symmetry of the limits", "process_data", lambda: mirror(ck))
    ck.ob("weather data unmodified", "WeatherPluginActivity", lambda: unmodified(ck))
