"""Path classification of the expression evaluator over its effect graph.

Every path of parse_expression is classified by the branch facts it carries.  A returned value must be the denotation
that these facts call for (the event itself; all_of / any_of over the evaluated parts, with no part filtered; the
level, full or empty event of expr['concept'].container with the expression's container id or "default"; all_of over
main_process of every activity found under the id, or else under the name; a timeout of max(start time - now, 0));
recursive evaluation is an opaque call on each part (induction over the expression).  A path that raises must carry
facts that exclude every valid form, no path returns without an event, and every valid form has a returning path.
"""

import terms as T
from lib import SELF, attr, fail, imprecise, undecided
from rules.common import GENERIC

LEVEL = "other"
X = ("param", "expr")
REGY = attr(SELF, "registry")


def key(c, k):
    return ("key", c, ("str", k) if isinstance(k, str) else k)


STATE, TYPE = key(X, "state"), key(X, "type")
OPS = ("gt", "ge", "lt", "le")


class Facts:
    def __init__(self, f):
        self.f = f

    def eq(self, a, c):
        c = ("str", c)
        if a[0] == "key" and self.has(a[1], a[2]) is False:
            return False
        v = self.f.get(T.eq(a, c))
        if v is None:
            for x, w in self.f.items():
                if w and x[0] == "eq" and a in x[1:] and any(T.is_const(y) and y != c for y in x[1:]):
                    return False
        return v

    def has(self, d, k):
        k = ("str", k) if isinstance(k, str) else k
        v = self.f.get(("in", k, d))
        if v is None:
            if self.f.get(T.isnone(("key", d, k))) is False or any(
                    w and x[0] == "eq" and ("key", d, k) in x[1:] for x, w in self.f.items()):
                return True
        return v

    def isinst(self, name):
        v = self.f.get(("isinstance", X, name))
        if v is None:
            for x, w in self.f.items():
                if w and x[0] == "isinstance" and x[1] == X and isinstance(x[2], str) and x[2] in KINDS:
                    return False
        return v

    def op(self):
        vs = [self.eq(STATE, o) for o in OPS]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        for x, w in self.f.items():
            if x[0] == "in" and x[1] == STATE:
                c = x[2]
                names = {s[1][1] for s in c[1] if s[0] == "item" and s[1][0] == "str"} if c[0] in (
                    "list", "tuple", "set", "frozenset") else None
                if names == set(OPS):
                    return w
        return None

    def level(self):
        """Is a level given (present and not None)?"""
        if self.has(X, "level") is False:
            return False
        v = self.f.get(T.isnone(key(X, "level")))
        return None if v is None else not v

    def found(self, d, k):
        """Is something registered under registry[d][k]?"""
        dd = key(REGY, d)
        if self.has(REGY, d) is False or self.has(dd, k) is False:
            return False
        it = ("key", dd, k)
        if self.f.get(T.isnone(it)) is True:
            return False
        if self.has(dd, k) is True or self.f.get(T.isnone(it)) is False:
            return True
        return None


KINDS = ("simpy.Event", "list", "dict")


def _and(*vs):
    if any(v is False for v in vs):
        return False
    return True if all(v is True for v in vs) else None


def _not(v):
    return None if v is None else not v


def the_key(F):
    return key(X, "ID") if F.has(X, "ID") is True else key(X, "name") if F.has(X, "ID") is False else None


def forms(F):
    """Valid form -> True (facts establish it) / False (exclude it) / None."""
    d = F.isinst("dict")
    noand, noor = _not(F.has(X, "and")), _not(F.has(X, "or"))
    con = _and(d, noand, noor, F.eq(TYPE, "container"))
    act = _and(d, noand, noor, F.eq(TYPE, "activity"), F.eq(STATE, "done"))
    out = {
        "event": F.isinst("simpy.Event"),
        "list": F.isinst("list"),
        "and": _and(d, F.has(X, "and")),
        "or": _and(d, noand, F.has(X, "or")),
        "container level": _and(con, F.op(), F.level()),
        "container full": _and(con, F.eq(STATE, "full")),
        "container empty": _and(con, F.eq(STATE, "empty")),
        "time": _and(d, noand, noor, F.eq(TYPE, "time"), _not(F.f.get(T.isnone(key(X, "start_time"))))
                     if F.f.get(T.isnone(key(X, "start_time"))) is not None else True,
                     False if F.has(X, "start_time") is False else True),
    }
    for nm in ("ID", "name"):
        given = F.has(X, "ID") if nm == "ID" else _and(_not(F.has(X, "ID")), F.has(X, "name"))
        k = key(X, nm)
        out[f"activity by {nm} in the id register"] = _and(act, given, F.found("id", k))
        out[f"activity by {nm} in the name register"] = _and(act, given, _not(F.found("id", k)), F.found("name", k))
    return out


def rec_all(seq):
    """[parse_expression(x) for x in seq], nothing filtered"""
    def ok(ev):
        if ev is None or ev[0] not in ("list", "tuple", "iterator") or len(ev[1]) != 1:
            return False
        s = ev[1][0]
        if s[0] != "each" or s[1] != seq or s[3] or s[2][0] != "item":
            return False
        v = s[2][1]
        return v[0] == "res" and v[2] == "parse_expression" and dict(v[4]).get("expr") == ("bv",)
    return ok


def value_form(v, F):
    """The form whose denotation v is (with the conditions it needs), or None."""
    if v == X:
        return ["event"]
    if v[0] != "res":
        return None
    a = dict(v[4])
    if v[2] == "parse_expression":
        e = a.get("expr")
        if e == key(X, "and") or (e is not None and e[0] in ("list", "copy") and e[1] in ((("splat", key(X, "and")),), key(X, "and"))):
            return ["and"]          # a list means all of its parts
        return None
    if v[2] in ("all_of", "any_of"):
        ev = a.get("events")
        if v[2] == "all_of" and rec_all(X)(ev):
            return ["list"]
        if v[2] == "all_of" and rec_all(key(X, "and"))(ev):
            return ["and"]
        if v[2] == "any_of" and rec_all(key(X, "or"))(ev):
            return ["or"]
        if v[2] == "all_of" and ev is not None and ev[0] == "list" and len(ev[1]) == 1 and ev[1][0][0] == "each":
            s = ev[1][0]
            proc = s[2][0] == "item" and (s[2][1] == ("attr", ("bv",), "main_process") or (
                s[2][1][0] == "vol" and s[2][1][2] == ("bv",) and s[2][1][3] == "main_process"))
            if proc and not s[3]:
                for nm in ("ID", "name"):
                    for reg in ("id", "name"):
                        if s[1] == ("key", key(REGY, reg), key(X, nm)):
                            return [f"activity by {nm} in the {reg} register"]
        return None
    con = attr(key(X, "concept"), "container")
    if v[2] in ("get_container_event", "get_full_event", "get_empty_event"):
        if v[3] != con:
            return None
        i = a.get("id_")
        want = key(X, "id_") if F.has(X, "id_") is True else ("str", "default") if F.has(X, "id_") is False else None
        if want is None and i is not None and i[0] == "str":
            return None
        if want is not None and i != want:
            return None
        if v[2] == "get_container_event":
            lv, op = a.get("level"), a.get("operator")
            if lv != key(X, "level"):
                return None
            if op != STATE and not (op is not None and op[0] == "str" and F.eq(STATE, op[1])):
                return None
            return ["container level"]
        return ["container full" if v[2] == "get_full_event" else "container empty"]
    if v[2] == "timeout":
        dl = a.get("delay")
        st = key(X, "start_time")
        if dl == ("max", tuple(sorted((T.num(0), T.sub(st, ("now", "E0"))), key=T.tkey))):
            return ["time"]
        late = T.lt0(T.sub(st, ("now", "E0")))
        if dl == T.sub(st, ("now", "E0")) and F.f.get(late) is False:
            return ["time"]
        if dl == T.num(0) and (F.f.get(late) is True or F.f.get(T.lt0(T.sub(("now", "E0"), st))) is False):
            return ["time"]
    return None


def known_junk(F):
    # a missing start_time cannot be computed with
    return F.has(X, "start_time") is False and F.eq(TYPE, "time") is True


def denotation(ck, only=None):
    """Every path returns what its expression denotes (only: judge paths of forms whose name starts with one of these)."""
    G = ck.graph(ck.prog.find_class(GENERIC).qual, "parse_expression")
    seen, n = set(), 0
    for _, kind, v, s in G.exits:
        if kind != "return":
            continue
        F = Facts(s.facts)
        if only is not None:
            fs = forms(F)
            if not any(x is True for k, x in fs.items() if k.startswith(only)):
                continue
        n += 1
        if known_junk(F):
            continue
        if F.eq(TYPE, "activity") and F.has(X, "ID") is False and F.has(X, "name") is False:
            continue      # looked up under the key None: nothing is registered there
        if v == T.NONE:
            fail("an expression is evaluated to nothing: " + facts_text(s.facts))
        f = value_form(v, F)
        if f is None:
            if imprecise(v) and v[0] != "res":
                undecided(f"value {T.show(v)[:160]}")
            est = [k for k, x in forms(F).items() if x is True]
            msg = (f"{', '.join(est) or 'an expression'} is evaluated to {T.show(v)[:260]} "
                   f"({facts_text(s.facts)})")
            if imprecise(v):
                undecided(msg)
            fail(msg)
        st = forms(F)[f[0]]
        if st is False:
            fail(f"{T.show(v)[:160]} is returned for an expression that is not of the form '{f[0]}': "
                 + facts_text(s.facts))
        if st is None:
            unread = [a for a in s.facts if a[0] not in ("isinstance", "in", "eq", "isnone", "truth", "lt0", "eq0")]
            msg = f"{T.show(v)[:160]} is returned although the expression need not be of the form '{f[0]}': " \
                  + facts_text(s.facts)
            undecided(msg) if unread else fail(msg)
        seen.add(f[0])
    missing = set(k for k in forms(Facts({})) if only is None or k.startswith(only)) - seen
    if missing:
        fail("no path evaluates: " + ", ".join(sorted(missing)))
    return n


def run(ck):
    q = ck.prog.find_class(GENERIC).qual

    def graph():
        return ck.graph(q, "parse_expression")

    def rejections():
        G = graph()
        n = 0
        for _, kind, v, s in G.exits:
            if kind != "raise":
                continue
            n += 1
            F = Facts(s.facts)
            for k, x in forms(F).items():
                if k == "time" and known_junk(F):
                    continue
                if x is not False:
                    unread = [a for a in s.facts if a[0] not in ("isinstance", "in", "eq", "isnone", "truth", "lt0",
                                                                 "eq0")]
                    msg = f"raises {T.show(v)[:60]} although the expression may be a valid '{k}': " \
                          + facts_text(s.facts)
                    undecided(msg) if unread and x is None else fail(msg)
        return n or fail("no path rejects an expression")

    ck.ob("denotation", "parse_expression", lambda: denotation(ck))
    ck.ob("rejection", "parse_expression", rejections)


def facts_text(facts):
    return "; ".join(f"{T.show(a)} is {v}" for a, v in list(facts.items())[-6:])[:420]
