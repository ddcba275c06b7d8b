"""Must-precede analysis of the place checks, and term comparison of what "at the same place" means.

In the activity (with the processor's transfer in line) no path reaches a request or release of a resource, a log entry, a content
change or a wait before both "processor at origin" and "destination at origin" were found true on that path, and the first content
change of a transfer follows a check made since the last wait.  In the processor's transfer every path checks both since its start
before its first log entry, content change or wait.  is_at is true exactly where the great-circle distance is below the tolerance.
"""

import terms as T
from lib import CONFIGS, IMPRECISE, SELF, attr, distinct_of, fail, imprecise, subterms, undecided
from rules import shift
from rules.common import is_request, log_call
from rules.shift import content

LEVEL = "other"
ASSUMPTIONS = ["pyproj.Geod.inv gives azimuths and the geodesic distance of two longitude/latitude pairs"]


def place(a, tol):
    """({the two objects}, epoch) of an is_at observation with the default tolerance, else None."""
    if a[0] == "truth":
        a = a[1]
    if a[0] == "call" and a[1] == "bool" and len(a[2]) == 1:
        a = a[2][0]
    if a[0] in ("obs", "res") and a[2] == "is_at":
        args = dict(a[4])
        if args.get("tolerance", tol) != tol:
            return None
        return frozenset((a[3], args.get("locatable"))), a[1]
    return None


def what(e):
    """The change an effect makes, else None."""
    if content(e):
        return "content changes"
    if log_call(e) or e.kind == "call" and str(e.name).startswith("log_entry"):
        return "a log entry"
    if e.kind == "call" and e.name in ("request", "release"):
        return f"a resource {e.name}"
    if e.kind == "yield":
        return "a wait"
    if e.kind == "yieldfrom":
        return f"{e.name}"
    if e.kind == "setattr" and e.name == "geometry":
        return "a change of place"
    if e.kind in ("setitem", "delitem", "pop") and e.recv is not None and any(
            x[0] in ("attr", "vol") and x[-1] == "requested_resources" for x in subterms(e.recv)):
        return "a change of the requested resources"
    return None


def precede(ck, G, P, O, D, tol, local):
    need = {frozenset(p): n for p, n in (((P, O), "the processor is at the origin"),
                                         ((D, O), "the destination is at the origin")) if p[0] != p[1]}
    n = [0]

    def step(s, e):
        ever, fresh, stale, started = s
        if e.kind == "observe" and e.name == "is_at":
            return s
        if e.kind == "assume":
            val = e.val == ("bool", True)
            p = place(e.recv, tol)
            if p is not None and val and p[0] in need:
                if p[1] in stale:
                    return (ever | {p[0]}, fresh, stale, started)
                return (ever | {p[0]}, fresh | {p[0]}, stale, started)
            return s
        w = what(e)
        if w is None:
            return s
        for k, name in sorted(need.items(), key=lambda x: x[1]):
            if k not in ever or local and not started and k not in fresh:
                if any(t[0] in ("obs", "res") and t[2] == "is_at" and place(t, tol) is None for a in e.facts for t in subterms(a)):
                    fail(f"{w} without having found, within the tolerance, that {name}", e)
                if any(imprecise(a) and "is_at" in repr(a) for a in e.facts):
                    undecided(f"whether {name} before {w}", e)
                fail(f"{w} before it is known that {name}", e)
        if w == "content changes":
            n[0] += 1
            if not started:
                for k, name in sorted(need.items(), key=lambda x: x[1]):
                    if k not in fresh:
                        fail(f"content changes though objects may have moved since it was found that {name}", e)
                started = True
        if e.kind in ("yield", "yieldfrom") and not started:
            fresh = frozenset()
            stale = stale | {x[1] for a in e.facts for x in subterms(a) if x[0] in ("obs", "res") and x[2] == "is_at"}
        if local and (log_call(e) or content(e)):
            n[0] += 1
            started = True
        return (ever, fresh, stale, started)
    ck.walk(G, (frozenset(), frozenset(), frozenset(), False), step)
    return n[0]


def tolerance(ck, cls="Locatable"):
    f = ck.prog.find_method(cls, "is_at")
    for p in f.params():
        if p[0] == "tolerance":
            v = ck.prog.fold(f.module, p[1], f.cls)
            return f, T.num(v) if isinstance(v, (int, float)) else None
    undecided("is_at has no parameter tolerance")


def activity(ck, config):
    f, tol = tolerance(ck)
    G = shift.graph(ck, config)
    P, O, D = shift.roles(config)
    return precede(ck, G, P, O, D, tol, False)


def process(ck, cls):
    f, tol = tolerance(ck)
    O, D = ("param", "origin"), ("param", "destination")
    G = ck.graph(cls, "process", types={O: ck.site(), D: ck.site()}, distinct=distinct_of((SELF, O, D)))
    return precede(ck, G, SELF, O, D, tol, True)


def coords(t):
    """The object of whose geometry t is the x / y coordinate: (object, axis)."""
    if t[0] == "attr" and t[2] in ("x", "y"):
        g, ax = t[1], t[2]
    elif t[0] == "key" and t[1][0] == "attr" and t[1][2] == "coords":
        return None
    else:
        return None
    while g[0] == "call" and g[1].rsplit(".", 1)[-1] in ("shape", "asShape") and g[2]:
        g = g[2][0]
    if g[0] in ("attr", "vol") and g[-1] == "geometry":
        return (g[2] if g[0] == "vol" else g[1]), ax
    return None


SIG = ("lons1", "lats1", "lons2", "lats2")
# functions whose results on geometries, distances and objects are known not to be distances over the ellipsoid
READ = {"inv", "shape", "abs", "round", "max", "min", "float", "bool", "centroid", "distance", "Point", "equals_exact", "equals",
        "isinstance", "hasattr", "getattr", "int", "ceil", "floor", "hypot", "sqrt"}


def readable(t):
    """Is every part of the term understood?"""
    return not any(x[0] in IMPRECISE or x[0] in ("call", "mcall")
                   and str(x[1] if x[0] == "call" else x[2]).rsplit(".", 1)[-1] not in READ for x in subterms(t))


def is_at(ck, cls="Locatable"):
    f, tol = tolerance(ck, cls)
    if tol != T.num(100):
        fail(f"{f.where}: the default tolerance is {T.show(tol) if tol else None}, not 100 m")
    G = ck.graph(cls, "is_at")
    names = [p[0] for p in f.params()]
    L, TOL = ("param", names[1]), ("param", "tolerance")
    n = [0]

    def distance(t):
        """Is t the geodesic distance of the two? True/False/None"""
        if t[0] == "call" and t[1] in ("float", "abs") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "key" and t[1][0] in ("mcall", "res") and t[1][2] == "inv":
            if t[2] not in (T.num(2), T.num(-1)):
                return False
            m = t[1]
            args = m[3] if m[0] == "mcall" else m[4]
            geod = m[1] if m[0] == "mcall" else m[3]
            if "wgs84" not in repr(geod) and "WGS84" not in repr(geod):
                return None
            args = {k if k in SIG else SIG[i] if i < 4 else str(i): v for i, (k, v) in enumerate(args)}
            if not set(SIG) <= set(args):
                return None
            c = [coords(args[k]) for k in SIG]
            if None in c:
                return False if all(readable(args[k]) for k in SIG) else None
            if [x[1] for x in c] != ["x", "y", "x", "y"]:
                return False
            return {c[0][0], c[2][0]} == {SELF, L} and c[0][0] == c[1][0] and c[2][0] == c[3][0]
        return False if readable(t) else None

    def atom(a):
        """1: a is 'distance < tolerance', -1: 'tolerance < distance', 0: something else, None: unknown"""
        if a[0] != "lt0" or a[1][0] != "poly":
            return 0 if readable(a) else None
        ms = dict(a[1][1])
        dist, t, cd, ct = None, None, None, None
        for m, c in ms.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] == TOL:
                t, ct = m[0][0], c
            elif len(m) == 1 and m[0][1] == 1 and dist is None:
                dist, cd = m[0][0], c
            else:
                return 0 if readable(a) else None
        if t is None or dist is None:
            return 0 if readable(a) else None
        r = distance(dist)
        if r is None:
            return None
        if r is False or cd != -ct or abs(cd) != 1:
            return 0
        return 1 if cd == 1 else -1

    def same(facts):
        """Is it known that the two are one object or have one geometry?"""
        for a, val in facts.items():
            if a[0] == "eq" and val and {T.show(x).replace(T.show(L), "#").replace(T.show(SELF), "#") for x in a[1:3]} in (
                    {"#"}, {"#.geometry"}):
                return True
        return False

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        neg = False
        while v[0] in ("not", "cond", "truth") or v[0] == "call" and v[1] == "bool" and len(v[2]) == 1:
            neg = not neg if v[0] == "not" else neg
            v = v[2][0] if v[0] == "call" else v[1]
        known = {val for a, val in st.facts.items() if a[0] == "lt0" and atom(a) == 1}
        if v[0] == "bool":
            b = v[1] != neg
            if b in known or b and same(st.facts):
                return
            unread = [a for a in st.facts if not readable(a) or a[0] == "lt0" and atom(a) is None]
            if unread:
                undecided(f"what is_at compares: {T.show(unread[0])[:150]}")
            fail(f"is_at is {b} without the distance being found {'' if b else 'not '}below the tolerance, where "
                 + ", ".join(f"{T.show(a)[:120]} is {val}" for a, val in st.facts.items())[:400])
        r = atom(v)
        if r is None or not readable(v):
            undecided(f"what is_at compares: {T.show(v)[:150]}")
        if r != 1 or neg:
            fail(f"is_at is {'not ' if neg else ''}{T.show(v)[:300]}, not distance < tolerance")
    ck.walk(G, (), lambda s, e: s, at_exit)
    return n[0]


def replaced(ck):
    """No object is given another is_at of its own."""
    import ast
    n = 0
    for m in ck.prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == "is_at":
                n += 1
                if isinstance(x.ctx, ast.Store):
                    fail(f"{m.relpath}:{x.lineno}: is_at is replaced by something else")
    return n


def geoid(ck):
    """The ellipsoid the distances refer to."""
    G = ck.graph("Locatable", "__init__", {"args": ("tuple", ())}, opaque=())
    n = [0]

    def wgs84(v):
        """Is v WGS84? True/False/None"""
        if v[0] == "attr" and v[1][0] == "module" or v[0] in ("global", "const"):
            node = ck.prog.resolve_name(ck.prog.modules[v[1].rsplit(".", 1)[0]], v[1].rsplit(".", 1)[1]) if v[0] == "global" else None
            import ast
            if node is None or node[0] != "const" or not isinstance(node[3], ast.Call):
                return None
            pos = [ck.prog.fold(ck.prog.modules[node[1]], a) for a in node[3].args]
            kw = {k.arg: ck.prog.fold(ck.prog.modules[node[1]], k.value) for k in node[3].keywords}
        else:
            if v[0] not in ("call", "new", "res", "mcall"):
                return None
            args = next((x for x in v[::-1] if isinstance(x, tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x)), ())
            pos = [x for x in (v[2] if v[0] == "call" and isinstance(v[2], tuple) else ())]
            pos = [x[1] if x[0] == "str" else None for x in pos]
            kw = {k: (a[1] if a[0] in ("str", "num") else None) for k, a in args if isinstance(a, tuple)}
            for k in [k for k in kw if str(k).isdigit()]:
                pos.append(kw.pop(k))
        if None in pos or None in kw.values():
            return None
        if kw == {"ellps": "WGS84"} and not pos or not kw and pos and pos[0].replace(" ", "") in ("+ellps=WGS84", "+datum=WGS84"):
            return True
        if kw and not pos:
            f = {float(k2) for k, k2 in kw.items() if k == "a"} == {6378137.0}
            r = kw.get("rf") and abs(float(kw["rf"]) - 298.257223563) < 1e-8
            return bool(f and r and set(kw) == {"a", "rf"})
        return None

    def step(s, e):
        if e.kind == "setattr" and e.name == "wgs84":
            n[0] += 1
            r = wgs84(e.val)
            if r is None:
                undecided(f"the ellipsoid {T.show(e.val)[:100]}", e)
            if not r:
                fail(f"distances are computed on {T.show(e.val)[:150]}", e)
            return True
        return s
    ck.walk(G, False, step)
    return n[0]


def run(ck):
    for c in CONFIGS:
        ck.ob("both place checks precede every change", c, lambda c=c: activity(ck, c))
    ck.ob("the processor checks both places again", "Processor.process", lambda: process(ck, ck.vessel()))
    plain = ck.composite("Crane", "Identifiable", "Processor", "Locatable", "HasContainer", "HasResource", "Log")
    ck.ob("the processor checks both places again", "Processor.process without rates", lambda: process(ck, plain))
    for cls in ["Locatable"] + sorted(q for q, c in ck.prog.classes.items() if "is_at" in c.methods and not q.endswith(".Locatable")):
        if cls != "Locatable" and "Locatable" not in "".join(ck.prog.mro(cls)):
            cls = ck.composite("Placed" + cls.rsplit(".", 1)[-1], cls, "Locatable")
        ck.ob("the same place means within the tolerance", cls.rsplit(".", 1)[-1] + ".is_at", lambda cls=cls: is_at(ck, cls))
    ck.ob("objects keep their class's is_at", "the package", lambda: replaced(ck))
    ck.ob("distances on the WGS84 ellipsoid", "Locatable.__init__", lambda: geoid(ck))
