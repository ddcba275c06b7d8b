"""Path analysis of the sailing methods of routable objects, with durations and distances as polynomial normal forms.

move_to_geometry and pass_linestring wait exactly once, for the geodesic length of the straight line to the target or of the given
line divided by the speed (engine order as factor once), and are at the target or the line's last point afterwards.  order_geometry
reverses the line exactly where its start is further from the given point than its end.  move_over_route first sails to the first
node, then passes, for every consecutive pair of nodes, the edge's line ordered from the pair's first node, calls every registered
function with that edge once and is then at the pair's second node.  compute_distance adds the lengths of all edges of the route.
"""

import terms as T
from lib import ENV, IMPRECISE, SELF, attr, fail, subterms, undecided
from rules.common import keeps

LEVEL = "other"
ASSUMPTIONS = ["pyproj.Geod.geometry_length gives the geodesic length of a line, inv the geodesic distance of two points",
               "geometries given to the sailing methods are shapely points and lines"]
AXES = {"x": 0, "y": 1, T.num(0): 0, T.num(1): 1}
ROUTE = ("param", "route")
GIVEN = {"_v", "engine_order", "route", "path", "on_pass_edge_functions"}     # what an object is given stays
GRAPH = attr(ENV, "graph")


KNOWN = {"Geod", "LineString", "Point", "shape", "array", "flipud", "flip", "abs", "inv", "geometry_length", "line_locate_point",
         "get_edge_data", "int", "round", "ceil", "floor", "fliplr", "roll", "list", "tuple", "reversed", "sorted", "len", "copy", "deepcopy", "type"}


def imprecise(t):
    """Does the term contain something not understood (shapely, pyproj and numpy calls known here are)?"""
    return any(x[0] in IMPRECISE or x[0] == "call" and str(x[1]).rsplit(".", 1)[-1] not in KNOWN or
               x[0] == "mcall" and x[2] not in KNOWN for x in subterms(t))


def geod(t):
    return any(x[0] == "call" and x[1].endswith("Geod") and any(y == ("str", "WGS84") for y in subterms(x)) for x in subterms(t))


def length_of(t):
    """The line whose geodesic length t is, else None."""
    if t[0] in ("mcall", "res") and t[2] == "geometry_length" and geod(t):
        args = t[3] if t[0] == "mcall" else t[4]
        if len(args) == 1:
            return args[0][1]
    if t[0] in ("mcall", "res") and t[2] == "line_length" and geod(t):
        return None
    return None


def line(t):
    """Does t equal the line's own term (copies included)?"""
    while t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("shape", "LineString", "copy", "deepcopy", "array", "asarray", "list", "tuple") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
        t = t[1][0][1]
    if t[0] == "attr" and t[2] == "coords":
        t = t[1]
    return t


def straight(t, a, b):
    """Is t the straight line from a to b (either direction)?"""
    if t[0] != "call" or not t[1].endswith("LineString") or len(t[2]) != 1:
        return False
    l = t[2][0]
    return l[0] in ("list", "tuple") and len(l[1]) == 2 and all(s[0] == "item" for s in l[1]) and {
        s[1] for s in l[1]} == {a, b}


def inv_distance(t):
    """The two (object, axis)-quadruples of a geodesic distance: (set of two points) or None."""
    if t[0] == "key" and t[1][0] in ("mcall", "res") and t[1][2] == "inv" and t[2] in (T.num(2), T.num(-1)) and geod(t):
        args = [v for _, v in (t[1][3] if t[1][0] == "mcall" else t[1][4])]
        if len(args) == 4 and [AXES.get(a[2]) if a[0] in ("attr", "key") else None for a in args] == [0, 1, 0, 1]:
            if args[0][1] == args[1][1] and args[2][1] == args[3][1]:
                return frozenset((args[0][1], args[2][1]))
    return None


def planar(t):
    """The two points of a planar distance of shapely points, or None."""
    if t[0] in ("mcall", "res") and t[2] == "distance" and t[1][0] in ("call", "param"):
        args = t[3] if t[0] == "mcall" else t[4]
        if len(args) == 1 and (t[1][0] == "param" or t[1][1].endswith("Point")):
            return frozenset((t[1], args[0][1]))
    return None


def speed_attr(ck):
    """The attribute a movable object's speed is kept in."""
    out = set()

    def step(s, e):
        if e.kind == "setattr" and e.recv == SELF and any(x == ("param", "v") for x in subterms(e.val)):
            out.add(e.name)
        return s
    ck.walk(ck.graph("Movable", "__init__"), (), step)
    if len(out) > 1 and "_v" in out:
        return "_v"
    if len(out) != 1:
        undecided("where the speed given to a movable object is kept")
    return out.pop()


def wait(ck, e, target, what, ok):
    """The wait of a leg: timeout of distance / speed."""
    v = e.val
    if not (isinstance(v, tuple) and v[0] == "res" and v[2] == "timeout"):
        undecided(f"what {what} waits for", e) if imprecise(v) else fail(f"{what} waits for {T.show(v)[:150]}", e)
    delay = dict(v[4]).get("delay")
    dist = T.mul(delay, T.mul(attr(SELF, speed_attr(ck)), attr(SELF, "engine_order")))
    if not ok(dist):
        undecided(f"the duration of {what}: {T.show(delay)[:200]}", e) if imprecise(delay) else fail(
            f"{what} takes {T.show(delay)[:300]}, not {target} / speed", e)


def leg(ck, meth, ok, target, end, near=None):
    G = ck.graph("Routable", meth)
    n = [0]

    def step(s, e):
        if e.kind == "yieldfrom":
            if s[0]:
                fail(f"{meth} waits twice", e)
            undecided(f"{meth} hands over to {e.name}", e)
        if e.kind == "yield":
            if s[0]:
                fail(f"{meth} waits twice", e)
            wait(ck, e, target, meth, ok)
            n[0] += 1
            return (True, s[1], None)
        if e.kind == "setattr" and e.recv == SELF and e.name in GIVEN:
            fail(f"{meth} changes the object's {e.name}", e)
        if e.kind == "setattr" and e.recv == SELF and e.name == "geometry":
            if not s[0]:
                if near is None or not near(e.val):
                    undecided("where the leg starts", e) if imprecise(e.val) else fail(
                        f"the object is at {T.show(e.val)[:150]} before the leg has been sailed", e)
            return (s[0], s[1], e.val)
        return s

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        if not s[0]:
            fail(f"{meth} takes no time")
        if s[2] is None:
            fail(f"the object is not at the end of the leg after {meth}")
        if not end(s[2]):
            undecided("where the leg ends") if imprecise(s[2]) else fail(f"after {meth} the object is at {T.show(s[2])[:150]}")
    ck.walk(G, (False, False, None), step, at_exit)
    return n[0]


def to_geometry(ck):
    g = ("param", "geometry")
    here = ("vol", "S0", SELF, "geometry")

    def ok(d):
        l = length_of(d)
        if l is not None and straight(l, here, g):
            return True
        p = inv_distance(d)
        return p == frozenset((here, g))
    return leg(ck, "move_to_geometry", ok, "the geodesic length of the straight line to the target", lambda v: line(v) == g)


def vertex(v, g, i):
    """Is v the point of the line g's vertex i?"""
    if v[0] == "call" and v[1].endswith("Point"):
        a = v[2]
        if len(a) == 1 and a[0][0] == "splat":
            a = (a[0][1],)
        if len(a) == 1:
            v = a[0]
    while v[0] in ("splat", "item", "*"):
        v = v[1]
    return v == ("key", attr(g, "coords"), T.num(i)) or v[0] == "key" and v[2] == T.num(i) and v[1] in (
        ("list", (("splat", attr(g, "coords")),)), ("call", "list", (attr(g, "coords"),), ()))


def linestring(ck):
    g = ("param", "geometry")

    def ok(d):
        l = length_of(d)
        return l is not None and line(l) == g
    return leg(ck, "pass_linestring", ok, "the geodesic length of the line", lambda v: vertex(v, g, -1), lambda v: vertex(v, g, 0))


def order(ck):
    G = ck.graph("Routable", "order_geometry")
    g, a = ("param", "geometry"), ("param", "a")
    n = [0]

    def flipped(t):
        """Is t the line's own points in reverse? True/False; None: something else, precise or not"""
        t0, f = t, False
        for _ in range(30):
            if t[0] == "call" and len(t[2]) >= 1:
                nm = t[1].rsplit(".", 1)[-1]
                if nm in ("flipud", "reversed", "reverse") and len(t[2]) == 1:
                    f = not f
                elif nm == "flip" and (len(t[2]) == 2 and t[2][1] == T.num(0) or dict(t[3]).get("axis") == T.num(0)):
                    f = not f
                elif nm not in ("LineString", "list", "tuple", "array", "asarray", "copy", "deepcopy", "shape", "flatten") or len(t[2]) != 1:
                    return None
                t = t[2][0]
            elif t[0] == "mcall" and t[2] in ("reverse", "copy", "tolist") and not t[3]:
                f = f != (t[2] == "reverse")
                t = t[1]
            elif t[0] == "slice" and t[2] in (T.NONE, T.num(0)) and t[3] == T.NONE and t[4] in (T.NONE, T.num(1)):
                t = t[1]
            elif t[0] == "slice" and t[2] == T.NONE and t[3] == T.NONE and t[4] == T.num(-1):
                f, t = not f, t[1]
            elif t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "splat":
                t = t[1][0][1]
            elif t[0] == "reversed":
                f, t = not f, t[1]
            elif t[0] == "attr" and t[2] == "coords":
                t = t[1]
            else:
                break
        return f if t == g else None

    def which(atom):
        """+1: the start is further than the end; -1: the end is further than the start (strictly); None"""
        if atom[0] != "lt0" or atom[1][0] != "poly":
            return None
        ms = dict(atom[1][1])
        if len(ms) != 2:
            return None
        out = {}
        for m, c in ms.items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                return None
            p = inv_distance(m[0][0]) or planar(m[0][0])
            if p is None:
                return None
            for q in p:
                for i in (0, -1):
                    if vertex(q, g, i) or vertex(q, line(g), i):
                        if a not in p:
                            fail("the ends of the line are not compared by their distance to the given point")
                        out[i] = c
        if set(out) != {0, -1} or out[0] == out[-1]:
            return None
        if any(planar(m[0][0]) for m in ms):
            fail("the ends of the line are compared by their planar distance in degrees, not by the geodesic one")
        return 1 if out[0] == -1 else -1

    def spoilt(v):
        """Are the line's points sorted?"""
        return any(x[0] == "call" and x[1] == "sorted" and attr(g, "coords") in subterms(x) for x in subterms(v))

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        ws = {which(x): val for x, val in st.facts.items()}
        ws.pop(None, None)
        if v == T.NONE:
            fail("no line is given")
        f = flipped(v)
        if f is None:
            undecided(f"the ordered line is {T.show(v)[:150]}") if imprecise(v) and not spoilt(v) else fail(
                f"the ordered line is {T.show(v)[:150]}, not the points of the line")
        if not ws:
            if any(imprecise(x) for x in st.facts):
                undecided("which end of the line is nearer to the point")
            fail(f"the line is {'' if f else 'not '}reversed without finding which of its ends is nearer to the given point, where "
                 + ", ".join(f"{T.show(x)[:150]} is {val}" for x, val in st.facts.items())[:400])
        # further: may the start be further than the end / the end further than the start on this branch?
        further = ws.get(1) if 1 in ws else (None if ws.get(-1) is False else False)
        nearer = (ws.get(-1) if -1 in ws else (None if ws.get(1) is False else False))
        if f and nearer is not False:
            # equality may be treated either way
            fail("the line is reversed where its end may be further from the given point than its start")
        if not f and further is not False:
            fail("the line is not reversed where its start may be further from the given point than its end")
    ck.walk(G, (), lambda s, e: s, at_exit)
    return n[0]


def node_geometry(x):
    return ("key", ("key", attr(GRAPH, "nodes"), x), ("str", "geometry"))


def edge_geometry(t, a, b):
    if t[0] != "key" or t[2] != ("str", "geometry"):
        return False
    t = t[1]
    pair = ("tuple", (("item", a), ("item", b)))
    return t in (("key", attr(GRAPH, "edges"), pair), ("key", ("key", GRAPH, a), b), ("key", ("key", attr(GRAPH, "adj"), a), b)) or (
        t[0] == "mcall" and t[1] == GRAPH and t[2] == "get_edge_data" and [v for _, v in t[3]] == [a, b])


def over_route(ck):
    G = ck.graph("Routable", "move_over_route")
    n = [0]
    pairs = ("pairs", ROUTE)
    hooks = attr(SELF, "on_pass_edge_functions")
    first = ("key", ROUTE, T.num(0))

    def diff(got, ok, what, e, want):
        if not ok:
            undecided(what, e) if got is None or imprecise(got) else fail(f"{what} is {T.show(got)[:200]}, not {want}", e)

    # state: started, position (geometry, node) last set, the pair (a, b) of this iteration, passed, hook state, hooks complete
    def step(s, e):
        started, geo, node, pr, line_, called, complete = s
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "move_to_geometry":
            if started:
                fail("sails to a geometry within the route", e)
            diff(e.arg("geometry"), e.arg("geometry") == node_geometry(first), "the start of the route", e, "the first node's geometry")
            n[0] += 1
            return (True, e.arg("geometry"), node, pr, line_, called, complete)
        if e.kind == "loop" and e.recv == pairs:
            if not started:
                fail("sails over the edges without sailing to the first node", e)
            return s
        if e.kind == "iter" and e.recv == pairs:
            L = e.args["elem"][2]
            return (started, None, None, (("at", ROUTE, L, 0), ("at", ROUTE, L, 1)), None, None, False)
        if e.kind == "yieldfrom" and e.recv == SELF and e.name == "pass_linestring":
            if pr is None:
                undecided("over which edge the object sails", e)
            if line_ is not None:
                fail("an edge is sailed twice", e)
            x = e.arg("geometry")
            if x is None or x[0] != "res" or x[2] != "order_geometry":
                undecided("the line sailed", e) if x is None or imprecise(x) else fail(
                    f"the line {T.show(x)[:150]} is sailed without ordering it from the nearer end", e)
            args = dict(x[4])
            diff(args.get("geometry"), edge_geometry(args.get("geometry", ("none",)), *pr), "the line sailed", e, "the edge of the pair")
            diff(args.get("a"), args.get("a") == node_geometry(pr[0]), "the point the line is ordered from", e,
                 "the first node's geometry")
            n[0] += 1
            return (started, "end", None, pr, x, None, False)
        if e.kind == "setattr" and e.recv == SELF and e.name in ("geometry", "node"):
            if pr is None:
                want = node_geometry(first) if e.name == "geometry" else first
                diff(e.val, e.val == want, f"the {e.name} before the edges", e, "that of the first node")
                return s
            i = 0 if line_ is None else 1
            want = node_geometry(pr[i]) if e.name == "geometry" else pr[i]
            diff(e.val, e.val == want, f"the {e.name} {'after' if i else 'before'} the edge is sailed", e,
                 f"that of the pair's {'second' if i else 'first'} node")
            return (started, e.val if e.name == "geometry" else geo, e.val if e.name == "node" else node, pr, line_, called, complete)
        if e.kind == "setattr" and e.recv == SELF and e.name in GIVEN:
            fail(f"sailing over a route changes the object's {e.name}", e)
        if e.kind == "loop" and e.recv == hooks:
            return s
        if e.kind == "iter" and e.recv == hooks:
            return (started, geo, node, pr, line_, ("fn", e.args["elem"], 0), complete)
        if e.kind == "call" and e.recv is not None and called is not None and e.recv == called[1] and e.name in ("<call>", "__call__"):
            if line_ is None:
                fail("a registered function is called before the edge is passed", e)
            want = {"movable": SELF, "a": pr[0], "b": pr[1], "route": ROUTE, "geometry": line_}
            for k, w in want.items():
                v = e.args.get(k)
                if v != w:
                    undecided(f"the {k} given to the registered functions", e) if v is None and not any(
                        k2 in want for k2 in e.args) or v is not None and imprecise(v) else fail(
                        f"the {k} given to the registered functions is {T.show(v)[:150] if v else 'missing'}", e)
            if called[2]:
                fail("a registered function is called twice for one edge", e)
            return (started, geo, node, pr, line_, called[:2] + (1,), complete)
        if e.kind in ("back", "exhaust") and e.recv == hooks:
            if called is not None and not called[2]:
                fail("a registered function is not called for the edge", e)
            return (started, geo, node, pr, line_, None, complete or e.kind == "exhaust")
        if e.kind == "break":
            fail("the route or the registered functions are left early", e) if pr is not None else None
            return s
        if e.kind in ("back", "exhaust") and e.recv == pairs:
            if pr is not None:
                if line_ is None:
                    fail("an edge of the route is not sailed", e)
                if not complete and not empty_hooks(e.facts):
                    fail("the registered functions are not called for an edge", e)
                if geo is None:
                    undecided("where the object is after an edge", e)
                if node != pr[1]:
                    fail("after an edge the object is not at the edge's second node", e)
            return (started, geo, node, None, None, None, False)
        if e.kind == "yield":
            v = e.val
            if called is not None and v[0] in ("res",) and v[3] == called[1]:
                return s
            undecided("what the object waits for on the route", e) if imprecise(v) or v[0] == "res" and v[2] != "timeout" else fail(
                f"waits for {T.show(v)[:150]} on the route", e)
        return s

    def empty_hooks(facts):
        return facts.get(T.truth(hooks)) is False

    def at_exit(s, kind, v, st):
        if kind == "return":
            if not s[0]:
                fail("does not sail to the first node")
    loops = [e for o in G.out for e, _ in o if e is not None and e.kind == "loop"]
    for e in loops:
        r = e.recv
        if r is not None and r[0] == "pairs" and r != pairs and ROUTE in subterms(r) and line(r[1]) != ROUTE and not imprecise(r):
            fail(f"sails over the pairs of {T.show(r[1])[:150]}, not of the route", e)
        ends = r is not None and r[0] == "zip" and len(r[1]) == 2 and [
            x[0] == "slice" and x[1] == ROUTE and all(y[0] in ("num", "none") for y in x[2:]) or x == ROUTE for x in r[1]]
        if ends and all(ends):
            fail(f"sails over {T.show(r[1][0])[:80]} and {T.show(r[1][1])[:80]}, not over the consecutive nodes of the route", e)
    if not any(e.recv == pairs for e in loops):
        undecided("no loop over the consecutive nodes of the route")
    ck.walk(G, (False, None, None, None, None, None, False), step, at_exit)
    return n[0]


def distance(ck):
    G = ck.graph("Routable", "compute_distance")
    n = [0]
    route, path = attr(SELF, "route"), attr(SELF, "path")

    def at_exit(s, kind, v, st):
        if kind != "return":
            return
        n[0] += 1
        while v[0] in ("call",) and v[1] in ("float", "sum") and len(v[2]) == 1 and v[2][0][0] == "sum":
            v = v[2][0]
        if v == T.NONE:
            fail("no distance is given")
        if st.facts.get(T.isnone(path)) is False or any(x == path for x in subterms(v)):
            def loc(p):
                return ("mcall", path, "line_locate_point", (("", ("param", p)),))
            total = [x for x in subterms(v) if length_of(x) is not None and line(length_of(x)) == path]
            frac = [x for x in subterms(v) if x[0] == "call" and x[1] == "abs" and len(x[2]) == 1 and x[2][0] in (
                T.sub(loc("origin"), loc("destination")), T.sub(loc("destination"), loc("origin")))]
            if total and frac and v == T.div(T.mul(total[0], frac[0]), attr(path, "length")):
                return
            d = T.sub(loc("origin"), loc("destination"))
            for x in (d, T.neg(d)):
                # the absolute value as a choice of sign
                if total and v == T.div(T.mul(total[0], x), attr(path, "length")):
                    sign = st.facts.get(T.lt0(x)), st.facts.get(T.lt0(T.neg(x)))
                    if sign[0] is False or sign[1] is True:
                        return
            if not imprecise(v):
                fail(f"the distance along the path is {T.show(v)[:300]}")
            undecided(f"the distance along the path: {T.show(v)[:200]}")
        if v[0] == "sum" and len(v) == 3 and v[1] == ("pairs", route):
            l = length_of(v[2])
            if l is not None:
                a, b = ("key", ("bv",), T.num(0)), ("key", ("bv",), T.num(1))
                if edge_geometry(l, a, b):
                    return
                if not imprecise(l):
                    fail(f"the length of {T.show(l)[:200]} is added for each edge of the route")
            if not imprecise(v[2]):
                fail(f"adds {T.show(v[2])[:200]} for each edge of the route")
        if v[0] == "num" or not imprecise(v) and not any(x[0] == "sum" and len(x) != 3 for x in subterms(v)):
            fail(f"the distance over the route is {T.show(v)}")
        undecided(f"the distance over the route: {T.show(v)[:200]}")
    ck.walk(G, (), lambda s, e: s, at_exit)
    return n[0]


def run(ck):
    ck.ob("the object keeps its speed and engine order", "Movable", lambda: keeps(ck, "Movable", {speed_attr(ck): "v", "engine_order": "engine_order"}))
    ck.ob("the object keeps its route and path", "Routable", lambda: keeps(ck, "Routable", ("route", "path")))
    ck.ob("one wait of distance over speed, ending at the target", "move_to_geometry", lambda: to_geometry(ck))
    ck.ob("one wait of distance over speed, ending at the far end", "pass_linestring", lambda: linestring(ck))
    ck.ob("lines are traversed from the nearer end", "order_geometry", lambda: order(ck))
    ck.ob("every edge in order, every function called, far end reached", "move_over_route", lambda: over_route(ck))
    ck.ob("the distance over a route is the sum over its edges", "compute_distance", lambda: distance(ck))
