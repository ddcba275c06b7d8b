"""Value analysis of the composed get_state chain for every order of composition of the state-carrying mixins.

For each composite class (every subset and order of the mixins that define a state, and the package's own movable classes)
the get_state calls are resolved along the composite's method resolution order and put in line.  On every path the result
must be a newly built mapping with the part of every mixin: the level of the default container or the mapping of level per
content container id (itself newly built), the geometry, and the node exactly when it is not None.  The chain must not write
anything.
"""

import ast
import itertools

import terms as T
from lib import SELF, attr, fail, imprecise, subterms, undecided
from rules import c22
from rules.store import SUFFIX

LEVEL = "other"
CONT = attr(SELF, "container")
ID = ("key", ("bv",), ("str", "id"))
EXTRA = ("Identifiable", "Processor", "LoadingFunction", "UnloadingFunction", "HasResource")


def composites(ck):
    out = []
    for c in ("HasContainer", "HasMultiContainer"):
        for k in (1, 2, 3):
            for p in itertools.permutations(("Log", "Locatable", c), k):
                if p not in out:
                    out.append(p)
        out += [("Movable", c), (c, "Movable"), ("Routable", c), (c, "Routable"),
                ("Identifiable", "Log", "Locatable", c, "HasResource"), EXTRA + ("Movable", c)]
    out += [("Movable",), ("Routable",)]
    for q in ("ContainerDependentMovable", "MultiContainerDependentMovable"):
        out += [(q,), ("Identifiable", q, "Processor", "HasResource"), ("Log", "Locatable", q)]
    for q, c in sorted(ck.prog.classes.items()):
        if "get_state" in c.methods and not q.startswith("composite.") and q.rsplit(".", 1)[-1] not in (
                "Log", "Locatable", "HasContainer", "HasMultiContainer"):
            out += [(q.rsplit(".", 1)[-1], "Log", "Locatable", "HasContainer"),
                    (q.rsplit(".", 1)[-1], "Log", "Locatable", "HasMultiContainer")]
    return out


def is_attr(t, name):
    while t[0] == "stale":
        t = t[1]
    return t[0] == "vol" and t[2:] == (SELF, name) or t == attr(SELF, name)


def level_of(t, ident):
    while t[0] == "stale":
        t = t[1]
    return t[0] == "obs" and t[2] == "get_level" and t[3] == CONT and dict(t[4]).get("id_", ("str", "default")) == ident


def levels_by_id(t):
    """Is t a new mapping from the id of each content container to its level?"""
    if t[0] == "copy":
        t = t[1]
    if t[0] == "call" and t[1] == "dict" and len(t[2]) == 1 and t[2][0][0] == "list" and len(t[2][0][1]) == 1:
        x = t[2][0][1][0]
        if x[0] == "each" and x[2][0] == "item" and x[2][1][0] == "tuple" and len(x[2][1][1]) == 2:
            kv = [i[1] for i in x[2][1][1]]
            t = ("dict", (("each", x[1], ("kv", kv[0], kv[1])) + tuple(x[3:]),))
    if t[0] != "dict" or len(t[1]) != 1 or t[1][0][0] != "each":
        return None
    x = t[1][0]
    src, body, conds = x[1], x[2], x[3] if len(x) > 3 else ()
    if body[0] != "kv":
        return None
    while src[0] == "stale":
        src = src[1]
    if src[0] == "vol" and src[2:] == (CONT, "items"):
        if conds != (("not", ("truth", ("mcall", ID, "endswith", (("", ("str", SUFFIX)),)))),):
            return None
        ident = ID
    elif src == attr(CONT, "container_list") and conds == ():
        ident = ("bv",)
    else:
        return None
    return body[1] == ident and level_of(body[2], ident)


def check(ck, bases):
    try:
        q = ck.composite("State" + "".join(bases), *bases)
        q = q if isinstance(q, str) else q.qual
        mro = {x.rsplit(".", 1)[-1] for x in ck.prog.mro(q)}
    except (ValueError, TypeError):
        return None                       # no such class can be written
    if ck.prog.classes[q].lookup("get_state") is None:
        fail("the object has no state")
    G = ck.graph(q, "get_state", transparent=("get_state",), self_type=q)
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind in ("setattr", "setitem", "delitem", "mutate", "pop"):
                if e.recv[0] == "dict":
                    continue
                if e.kind == "setattr" and e.val is not None and e.val[0] not in ("dict", "key", "copy"):
                    continue                       # e.g. a counter, not the mapping
                undecided(f"{e.show()[:120]}", e) if imprecise(e.recv) else fail(
                    "asking for the state changes the object or keeps the mapping", e)
    def step(s, e):
        none, true = s
        if e.kind == "assume" and is_attr(e.recv[1], "node"):
            if e.recv[0] == "isnone":
                none = e.val == ("bool", True)
            elif e.recv[0] == "truth":
                true = e.val == ("bool", True)
        return none, true
    count = [0]
    ck.walk(G, (None, None), step, lambda s, kind, v, st: result(ck, s, kind, v, mro, count))
    return count[0] or None


def result(ck, s, kind, v, mro, n):
    none, true = s
    if kind != "return":
        fail("asking for the state can fail") if kind == "raise" and "StopIteration" not in str(v) else None
        return
    n[0] += 1
    if v is not None and v[0] == "copy":
        v = v[1]
    if v is None or v[0] != "dict":
        if v is not None and imprecise(v):
            undecided(f"state is {T.show(v)[:150]}")
        fail(f"the state is {T.show(v)[:150] if v else 'None'}, not a newly built mapping")
    for i in v[1]:
        x = i[1] if i[0] == "splat" else None
        while x is not None and x[0] == "stale":
            x = x[1]
        if x is not None and (x[0] == "attr" and x[1] == SELF or x[0] == "vol" and x[2] == SELF):
            a = x[-1]
            w = [f for f in ck.prog.all_functions() for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and y.attr == a
                 and not (isinstance(y.ctx, ast.Load) and f.name == "get_state")]
            if w and all(f.name == "__init__" for f in w):
                fail(f"the state is what {a} was when the object was made, not the object's present state")
    if any(i[0] != "kv" or i[1][0] != "str" for i in v[1]):
        undecided(f"state is {T.show(v)[:150]}")
    f = {i[1][1]: i[2] for i in v[1]}
    if "Locatable" in mro:
        g = f.get("geometry")
        if g is None:
            fail("the state has no geometry")
        if not is_attr(g, "geometry"):
            undecided(f"geometry {T.show(g)[:100]}") if imprecise(g) else fail(
                f"the logged geometry is {T.show(g)[:100]}, expected the object's geometry")
        nd = f.get("node")
        if nd is None and none is not True:
            fail("the state has no node although the node may be set" + (" (to a false value)" if true is False else ""))
        if nd is not None:
            if not is_attr(nd, "node"):
                undecided(f"node {T.show(nd)[:100]}") if imprecise(nd) else fail(f"the logged node is {T.show(nd)[:100]}")
            if none is True or none is None and true is None:
                fail("the state has a node although none is set")
    if "HasContainer" in mro:
        c = f.get("container level")
        if c is None:
            fail("the state has no container level")
        if "HasMultiContainer" in mro:
            r = levels_by_id(c)
            if not r:
                undecided(f"container level {T.show(c)[:150]}") if imprecise(c) or c[0] == "dict" and r is None and any(
                    u[0] == "obs" for u in subterms(c)) and not plain_mismatch(c) else fail(
                    f"the logged level is {T.show(c)[:200]}, expected the level of each content container by its id")
        elif not level_of(c, ("str", "default")):
            undecided(f"container level {T.show(c)[:100]}") if imprecise(c) else fail(
                f"the logged level is {T.show(c)[:150]}, expected the level of the container")


def plain_mismatch(c):
    """A mapping over the container items whose key, value or condition is understood and different."""
    return len(c[1]) == 1 and c[1][0][0] == "each" and c[1][0][2][0] == "kv" and not imprecise(c)


def asked(ck):
    """Whoever asks an object for its state asks for that of the whole composition."""
    n = 0
    names = {q.rsplit(".", 1)[-1] for q in ck.prog.classes}
    for f in ck.prog.all_functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "get_state" and f.name != "get_state":
                n += 1
                b = x.value
                if isinstance(b, ast.Name) and b.id in names or isinstance(b, ast.Call) and isinstance(
                        b.func, ast.Name) and b.func.id == "super":
                    fail(f"{f.qual}:{x.lineno} asks for the state of {ast.unparse(b)}, leaving out the other mixins")
    return n


def run(ck):
    ck.ob("whole state asked for", "get_state", lambda: asked(ck))
    ck.ob("logged state", "log_entry_v1", lambda: c22.entry(ck))
    for b in composites(ck):
        ck.ob("state of a composition", "+".join(b), lambda b=b: check(ck, b))
