"""Composition of the delay plugin's constructor and post-processing terms, and the delay's effect sequence.

Substituting the constructor's attribute terms into the waiting time must give exactly percentage / 100 times (now -
start of the activity); the delay is a WAIT_START entry, one timeout of that length and a WAIT_STOP entry on the given
log under its id; without a percentage no path has an effect.  The mixin registers one such plugin exactly on the
branches with a percentage, and only when combined with an activity that supports plugins.  Every activity kind hands
its plugins the time of its START entry.
"""

from fractions import Fraction

import terms as T
from lib import ENV, SELF, attr, fail, imprecise, undecided
from rules.c16 import protocol
from rules.common import activities, log_call, short

LEVEL = "other"
PCT = ("param", "delay_percentage")
LOG, ACT, LABEL, WAIT = (("param", p) for p in ("activity_log", "activity", "activity_label", "waiting"))


def fields(ck, cls):
    """attribute -> {value} set by the constructor on paths with / without a percentage."""
    G = ck.graph(cls, "__init__")
    out = {True: {}, False: {}}

    def step(s, e):
        if e.kind == "setattr" and e.recv == SELF:
            return tuple(sorted(dict(s, **{e.name: e.val}).items()))
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        none = st.facts.get(T.isnone(PCT))
        for given in ((True,) if none is False else (False,) if none else (True, False)):
            for k, x in s:
                out[given].setdefault(k, set()).add(x)
    ck.walk(G, (), step, at_exit)
    return out


def close(t, fs, given):
    """Substitute self.<attr> by what the constructor stored (None: not unique)."""
    for k, vs in fs[given].items():
        if T.mentions(t, attr(SELF, k)):
            if len(vs) != 1:
                return None
            t = T.replace(t, attr(SELF, k), next(iter(vs)))
    return t


def possible(facts, fs, given):
    """Can these branches of post_process be taken with / without a percentage?"""
    for a, v in facts.items():
        c = close(a, fs, given)
        if c is None:
            continue
        if c == ("bool", not v):
            return False
        if c[0] == "isnone":
            x = c[1]
            known = True if x == T.NONE else False if x[0] in ("num", "poly", "dict", "list", "str") else (
                not given if x == PCT else None)
            if known is not None and known != v:
                return False
        if c[0] == "truth" and c[1] == T.NONE and v:
            return False
        if c[0] == "eq0" and given is False and T.mentions(c, PCT):
            continue
    return True


def formula(ck):
    fs = fields(ck, "DelayPlugin")
    G = ck.graph("DelayPlugin", "post_process", {"env": ENV})
    start = ("param", "start_activity")
    want = T.mul(T.sub(("now", "E0"), start), T.mul(PCT, T.num(Fraction(1, 100))))
    n = [0]

    def step(s, e):
        if e.kind in ("call", "yieldfrom") and e.name == "delay_processing":
            n[0] += 1
            if e.kind == "yieldfrom":
                return (s[0], True)
            if s[0] is not None:
                fail("the activity is delayed twice", e)
            for k, w in (("activity_log", LOG), ("env", ENV)):
                g = e.arg(k)
                if g != w:
                    undecided(k, e) if g is None or imprecise(g) else fail(f"{k} of the delay is {T.show(g)[:80]}", e)
            if e.recv not in (ACT, LOG):
                undecided("who is delayed", e)
            lb = e.arg("activity_label")
            w = close(e.arg("waiting"), fs, True)
            if w is None or imprecise(w):
                undecided("the delay", e)
            if w != want:
                fail(f"the delay is {T.show(w)[:160]}, expected {T.show(want)}", e)
            if lb is None or lb[0] != "dict":
                undecided("label of the delay", e)
            return (e.res, s[1])
        if e.kind in ("yield", "yieldfrom") and e.name != "delay_processing":
            undecided("another delay", e)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            if kind == "raise" and possible(st.facts, fs, True):
                fail("post-processing fails")
            return
        used = s[0] is not None and (s[1] or v == s[0])
        if s[0] is not None and not used:
            fail("the delay is prepared but not carried out")
        if possible(st.facts, fs, True) and not used and not nodelay(st.facts):
            fail("with a percentage the activity is not delayed")
        if possible(st.facts, fs, False) and used:
            fail("without a percentage the activity is delayed")

    def nodelay(facts):
        """a branch where the delay is zero anyway"""
        for a, v in facts.items():
            c = close(a, fs, True)
            if c == T.eq0(want) and v or c == T.lt0(T.neg(want)) and not v:
                return True
            if c in (T.eq0(PCT), T.eq0(T.sub(("now", "E0"), start))) and v:
                return True
            if c == T.truth(PCT) and v is False:
                return True
        return False

    ck.walk(G, (None, False), step, at_exit)
    return n[0] or fail("the plugin never delays")


def sequence(ck):
    G = ck.graph("PluginActivity", "delay_processing", {"env": ENV})
    n = [0]

    def step(s, e):
        lg = log_call(e)
        if lg:
            n[0] += 1
            if lg[0] != LOG:
                fail(f"the waiting is logged on {T.show(lg[0])[:60]}", e)
            wantst, ph = {0: ("WAIT_START", 1), 2: ("WAIT_STOP", 3)}.get(s, (None, None))
            if lg[1] != wantst:
                fail(f"{lg[1]} is logged " + {0: "before", 1: "before", 2: "after", 3: "after"}[s] + " the delay", e)
            for k, v in (("t", ("now", e.now)), ("activity_id", attr(LOG, "id")), ("activity_label", LABEL)):
                g = e.arg(k)
                if g != v:
                    undecided(k, e) if g is not None and imprecise(g) else fail(
                        f"{k} of the {lg[1]} entry is {T.show(g)[:80] if g else 'missing'}", e)
            return ph
        if e.kind == "yield":
            v = e.val
            if s == 0 or s == 3:
                fail("the delay is not between its WAIT_START and WAIT_STOP entries", e)
            if s == 2:
                fail("the activity is delayed twice", e)
            if v[0] == "res" and v[2] == "timeout":
                dl = dict(v[4]).get("delay")
                if dl != WAIT:
                    undecided("delay", e) if dl is None or imprecise(dl) else fail(
                        f"the delay lasts {T.show(dl)[:80]} instead of the given time", e)
                return 2
            undecided("the delay", e)
        if e.kind == "yieldfrom":
            undecided("the delay", e)
        return s

    def at_exit(s, kind, v, st):
        if kind == "return" and s != 3:
            z = st.facts.get(T.eq0(WAIT)) is True or st.facts.get(T.lt0(T.neg(WAIT))) is False
            if s == 0 and z:
                return
            fail("the delay is not carried out and logged completely")
    ck.walk(G, 0, step, at_exit)
    return n[0]


def attached(ck):
    q = ck.composite("DelayedBasic", "HasDelayPlugin", "BasicActivity")
    n = [0]
    for cls, plugs in ((q, True), ("HasDelayPlugin", False)):
        G = ck.graph(cls, "__init__")

        def step(s, e):
            if e.kind in ("call", "super") and e.name == "__init__":
                return (True, s[1])
            if e.kind == "call" and e.name == "register_plugin":
                n[0] += 1
                if not plugs:
                    fail("a delay is attached to something that does not support plugins", e)
                if not s[0] and plugs:
                    fail("the plugin is registered before the activity is initialised", e)
                if s[1]:
                    fail("the delay is attached twice", e)
                p = e.arg("plugin")
                if p is None or p[0] != "new" or not p[2].endswith(".DelayPlugin"):
                    undecided("the registered plugin", e)
                a = dict(p[3])
                if a.get("delay_percentage") != PCT:
                    g = a.get("delay_percentage")
                    undecided("percentage", e) if g is not None and imprecise(g) else fail(
                        f"the delay plugin gets {T.show(g) if g else 'nothing'} as percentage", e)
                return (s[0], True)
            return s

        def at_exit(s, kind, v, st):
            if kind != "return" or not plugs:
                return
            none = st.facts.get(T.isnone(PCT))
            tr = st.facts.get(T.truth(PCT))
            if s[1] and none is not False and tr is not True:
                fail("a delay is attached without a percentage")
            if not s[1] and none is not True:
                if tr is False:
                    return      # zero per cent adds nothing
                fail("no delay is attached although a percentage is given")
        ck.walk(G, (False, False), step, at_exit)
    return n[0]


def run(ck):
    ck.ob("length of the delay", "DelayPlugin", lambda: formula(ck))
    for q in activities(ck):
        ck.ob("start of the work", short(q), lambda: protocol(ck, q, "start_activity"))
    ck.ob("logged waiting", "delay_processing", lambda: sequence(ck))
    ck.ob("attachment", "HasDelayPlugin", lambda: attached(ck))
