"""Value analysis (polynomial normal form) of speed, distance and travel time.

v of each kind of mover, compute_distance and compute_duration are summarised as expressions over the object's fields and the
arguments, for every path, and compared with the specification: base speed times engine order; engine order times the user's
function of total level over total capacity of all containers; great-circle distance on the WGS84 ellipsoid; distance over
(speed times engine order of the computation).
"""

import terms as T
from lib import SELF, attr, fail, imprecise, subterms, undecided
from rules import c04
from rules.store import BV, SUFFIX, is_items

LEVEL = "other"
CONT = attr(SELF, "container")
ORD = attr(SELF, "engine_order")


def values(ck, cls, name, **kw):
    G = ck.graph(cls, name, **kw)
    out = [(v, st) for _, kind, v, st in G.exits if kind == "return"]
    if not out:
        fail(f"{name} returns nothing")
    return G, out


def factors(t):
    """factor -> exponent of a single monomial with coefficient 1, else None"""
    if t[0] == "poly":
        if len(t[1]) != 1 or t[1][0][1] != 1:
            return None
        return dict(t[1][0][0])
    return {t: 1} if t[0] != "num" else None


def stored_as(ck, cls, param):
    """Names of the attributes the constructor sets to the parameter, unconditionally."""
    G = ck.graph(cls, "__init__")
    names = {e.name for o in G.out for e, _ in o if e is not None and e.kind == "setattr" and e.recv == SELF
             and e.val == ("param", param)}
    good = []
    for a in sorted(names):
        bad = []

        def step(s, e, a=a):
            if e.kind == "setattr" and e.recv == SELF and e.name == a:
                return e.val == ("param", param)
            return s

        def at_exit(s, kind, v, st, bad=bad):
            if kind == "return" and not s:
                bad.append(1)
        ck.walk(G, False, step, at_exit)
        if not bad:
            good.append(a)
    return good


def base_speed(ck):
    names = stored_as(ck, "Movable", "v")
    if not names:
        fail("the given speed is not stored")
    if "engine_order" not in stored_as(ck, "Movable", "engine_order"):
        fail("the given engine order is not stored")
    n = 0
    for prop in ("v", "current_speed"):
        if ck.prog.find_method("Movable", prop) is None:
            continue
        for v, st in values(ck, "Movable", prop)[1]:
            n += 1
            if v not in [T.mul(attr(SELF, a), ORD) for a in names]:
                undecided(f"{prop}: {T.show(v)[:120]}") if imprecise(v) else fail(
                    f"{prop} is {T.show(v)[:200]}, expected base speed times engine order")
    return n


def is_container_list(X):
    i = ("key", BV, ("str", "id"))
    if X[0] == "filter" and X[1][0] == "vol" and X[1][2:] == (CONT, "items"):
        return i if X[2] == (("not", ("truth", ("mcall", i, "endswith", (("", ("str", SUFFIX)),)))),) else None
    if X == attr(CONT, "container_list") or X[0] == "vol" and X[2:] == (CONT, "container_list"):
        return BV
    return None


def query(t, what, ident):
    return t[0] == "obs" and t[2] == what and t[3] == CONT and dict(t[4]).get("id_") == ident


def fill(ck, t, cls):
    """Is t the total level over the total capacity of all containers?  True / message / None (unknown)"""
    f = factors(t)
    if f is None or sorted(f.values()) != [-1, 1]:
        return None if imprecise(t) else f"depends on {T.show(t)[:250]}"
    for u, k in f.items():
        what = "get_level" if k == 1 else "get_capacity"
        if query(u, what, ("str", "default")) and "Multi" not in cls:
            continue
        if u[0] == "sum" and len(u) == 3:
            i = is_container_list(u[1])
            if i is None:
                if imprecise(u[1]):
                    return None
                if u[1][0] == "attr" and u[1][1] == SELF:
                    return f"sums over {T.show(u[1])}, which does not follow containers that are added later"
                return f"sums over {T.show(u[1])[:150]}"
            if query(u[2], what, i):
                continue
        if imprecise(u):
            return None
        return f"depends on {T.show(t)[:250]}"
    return True


def loaded_speed(ck, cls):
    names = stored_as(ck, cls, "compute_v")
    if not names:
        fail("the given speed function is not stored")
    n = 0
    for v, st in values(ck, cls, "v")[1]:
        n += 1
        f = factors(v)
        call = None
        for u in subterms(v):
            if u[0] == "res" and u[2] in names and u[3] == SELF:
                call = u
        if call is None or f is None:
            undecided(f"v: {T.show(v)[:150]}") if imprecise(v) else fail(
                f"v is {T.show(v)[:250]}, expected engine order times the function of the load")
        if f != {ORD: 1, call: 1}:
            fail(f"v is {T.show(v)[:250]}, expected engine order times the function of the load")
        args = dict(call[4])
        if len(args) != 1:
            fail(f"the speed function gets {len(args)} arguments")
        # an empty loop makes the total 0; the general case is the exit after at least one container
        x = next(iter(args.values()))
        if "Multi" in cls and no_containers(st):
            continue
        r = fill(ck, x, cls)
        if r is None:
            undecided(f"argument of the speed function: {T.show(x)[:150]}")
        if r is not True:
            fail(f"the speed {r}, expected total level over total capacity")
    return n


def no_containers(st):
    return any(a[0] == "truth" and not v and any(is_items(u) or u[0] == "vol" and u[3] == "items" for u in subterms(a))
               and not any(u[0] == "mcall" and a[1] == u for u in subterms(a)) for a, v in st.facts.items())


def coordinate(t, axis, who):
    if t[0] != "attr" or t[2] != axis:
        return False
    t = t[1]
    while t[0] == "call" and t[1] == "shapely.geometry.shape" and len(t[2]) == 1:
        t = t[2][0]
    return t == who


def distance(ck, cls):
    o, d_ = ("param", "origin"), ("param", "destination")
    n = 0
    for v, st in values(ck, cls, "compute_distance")[1]:
        n += 1
        if v[0] == "key" and v[1][0] == "mcall" and v[1][2] == "inv":
            if v[2] != T.num(2):
                fail(f"returns {T.show(v)[:200]}, not the distance")
            geod = v[1][1]
            if geod[0] == "call" and geod[1].endswith("Geod") and dict(geod[3]).get("ellps", T.NONE)[0] == "str" and \
                    dict(geod[3])["ellps"][1] != "WGS84":
                fail(f"distances are computed on the ellipsoid {T.show(geod)[:100]}")
            if geod[0] != "call" or not geod[1].endswith("Geod") or ("ellps", ("str", "WGS84")) not in geod[3]:
                undecided(f"the ellipsoid {T.show(geod)[:100]}")
            if any(k and w != T.FALSE for k, w in v[1][3]):
                fail(f"the distance is {T.show(v)[:250]}")
            a = [w for k, w in v[1][3] if not k]
            if len(a) != 4:
                undecided("the coordinates")
            ok = False
            for p, q in ((o, d_), (d_, o)):
                if all(coordinate(x, ax, w) for x, ax, w in zip(a, ("x", "y", "x", "y"), (p, p, q, q))):
                    ok = True
            if not ok:
                if all(x[0] == "attr" and x[2] in ("x", "y") for x in a):
                    fail(f"the distance is {T.show(v)[:250]}")
                undecided(f"the coordinates {T.show(v)[:150]}")
            continue
        w = v
        while w[0] == "call" and (w[1] in ("round", "int") or w[1].startswith(("math.", "numpy."))) and w[2]:
            w = w[2][0]
        if w != v and w[0] == "key" and w[1][0] == "mcall" and w[1][2] == "inv":
            fail(f"the distance is {T.show(v)[:200]}, not the distance on the ellipsoid")
        undecided(f"the distance {T.show(v)[:150]}")
    return n


def duration(ck, cls):
    o, d_ = ("param", "origin"), ("param", "destination")
    n = 0
    speed = {T.replace_sites(v) if hasattr(T, "replace_sites") else v for v, _ in values(ck, cls, "v")[1]}
    eo = ("param", "engine_order")
    names = [p[0] for p in ck.prog.find_method("Movable", "compute_duration").params()]
    for v, st in values(ck, cls, "compute_duration")[1]:
        n += 1
        f = factors(v)
        if f is None:
            undecided(f"the duration {T.show(v)[:150]}") if imprecise(v) else fail(f"the duration is {T.show(v)[:250]}")
        dist = [u for u in f if u[0] == "res" and u[2] == "compute_distance"]
        if len(dist) != 1 or f[dist[0]] != 1:
            undecided("the distance in the duration") if imprecise(v) else fail(f"the duration is {T.show(v)[:250]}")
        a = dict(dist[0][4])
        if (a.get("origin"), a.get("destination")) not in ((o, d_), (d_, o)):
            fail(f"the duration is that from {T.show(a.get('origin', T.NONE))[:80]} to "
                 f"{T.show(a.get('destination', T.NONE))[:80]}")
        rest = {u: -k for u, k in f.items() if u != dist[0]}
        if "engine_order" in names:
            if rest.pop(eo, None) != 1:
                fail(f"the duration is {T.show(v)[:250]}; the engine order of the computation does not divide it")
        want = []
        for w in speed:
            want.append({strip_site(u): k for u, k in (factors(w) or {}).items()})
        if {strip_site(u): k for u, k in rest.items()} not in want:
            undecided(f"the speed in the duration {T.show(v)[:150]}") if imprecise(v) else fail(
                f"the duration is {T.show(v)[:300]}, expected distance over speed and engine order")
    return n


def strip_site(t):
    """Results of the same call at different sites are equal here (v is evaluated in both)."""
    if isinstance(t, tuple):
        if t and t[0] == "res" and len(t) == 5:
            return ("res", "", t[2], strip_site(t[3]), strip_site(t[4]))
        if t and t[0] == "obs" and len(t) == 5:
            return ("obs", "", t[2], strip_site(t[3]), strip_site(t[4]))
        if t and t[0] == "vol":
            return ("vol", "") + tuple(strip_site(c) for c in t[2:])
        if t and t[0] == "poly":
            return ("poly", tuple(sorted(((strip_site(m), c) for m, c in t[1]), key=repr)))
        return tuple(strip_site(c) for c in t)
    return t


def run(ck):
    ck.ob("base speed", "Movable", lambda: base_speed(ck))
    for c in ("ContainerDependentMovable", "MultiContainerDependentMovable"):
        ck.ob("speed under load", c, lambda: loaded_speed(ck, c))
    kinds = ("Movable", "ContainerDependentMovable", "MultiContainerDependentMovable")
    for c in kinds:
        ck.ob("distance", c, lambda: distance(ck, c))
        ck.ob("duration", c, lambda: duration(ck, c))
    for name, key in (("get_level", "level"), ("get_capacity", "capacity")):
        ck.ob("reported " + key, name, lambda: c04.reports(ck, name, key))
    ck.ob("list of containers", "container_list", lambda: c04.listing(ck))
