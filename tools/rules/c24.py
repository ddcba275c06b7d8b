"""Typestate of every constructor along all paths: the next constructor exactly once, every option used as given.

For each mixin class of the package the constructor is analysed on its own, with the next constructor opaque: every path that
returns calls the next constructor in the method resolution order exactly once, handing on all remaining positional and
keyword arguments, and every parameter is stored, handed on or put in a created object unchanged unless the path depends on
it being absent; a default may replace a parameter only when it is None.  By C3 linearisation the local rule gives every
composition its "each constructor exactly once".
"""

import ast

import terms as T
from lib import SELF, fail, imprecise, subterms, undecided

LEVEL = "other"
ASSUMPTIONS = ["classes outside the package that take part in a composition hand on construction as well"]
# parameters that are documented to be converted: (class, parameter) -> why it need not be stored unchanged
CONVERTED = {("DelayPlugin", "delay_percentage"): "stored as a fraction (C17)",
             ("EventsContainer", "store_capacity"): "doubled for the reservation accounts (C04)"}


def mixins(ck):
    """Classes with a constructor of their own that can take part in a composition of simulation objects or activities."""
    out = []
    plug = [q for q in ck.prog.classes if q.endswith("AbstractPluginClass")]
    for q, c in sorted(ck.prog.classes.items()):
        if q.startswith("composite.") or "__init__" not in c.methods:
            continue
        if not any(x in q for x in (".core.", ".model.", ".plugins.")):
            continue
        mro = ck.prog.mro(q)
        external = [x for x in mro if x not in ck.prog.classes and x.rsplit(".", 1)[-1] not in ("object", "ABC", "Generic")]
        leaf = any(p in mro for p in plug)
        out.append((q, c, bool(external) or leaf))
    return out


def as_is(t, found):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "param":
        found.add(t[1])
    elif t[0] in ("dict", "list", "tuple", "set"):
        for i in t[1]:
            for x in i[1:]:
                as_is(x, found)
    elif t[0] == "copy":
        as_is(t[1], found)


def inside_comp(root, node):
    return any(node is y for x in ast.walk(root) if isinstance(x, ast.DictComp) for y in ast.walk(x))


def constructor(ck, q, c, leaf):
    f = c.methods["__init__"]
    params = [(n, dflt, kind) for n, dflt, kind in f.params()][1:]
    names = [n for n, _, kind in params if kind not in ("*", "**", "vararg", "kwarg")]
    a = f.node.args
    va, kw = a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None
    names = [n for n in names if n not in (va, kw)]
    if not leaf and not (va and kw):
        fail(f"{c.name}.__init__ does not accept the arguments of the other classes in a composition")
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__":
            b = x.func.value
            if isinstance(b, ast.Name):
                vals = [y.value for y in ast.walk(f.node) if isinstance(y, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == b.id for t in y.targets)]
                if len(vals) == 1:
                    b = vals[0]
            if not (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super"):
                fail(f"{c.name}.__init__ names a fixed next constructor ({ast.unparse(b)}) instead of the next in the composition")
            if b.args and not (isinstance(b.args[0], ast.Name) and b.args[0].id in (c.name, "__class__")):
                fail(f"{c.name}.__init__ starts the constructor chain at {ast.unparse(b.args[0])}")
    plugin = ".plugins." in q and not leaf
    st = ck.composite("Built" + c.name, c.name, "BasicActivity") if plugin and q.rsplit(".", 1)[-1].startswith("Has") else None
    G = ck.graph(q, "__init__", setup=opaque_init, self_type=st if st is None or isinstance(st, str) else st.qual)
    strlike = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None and "str" in ast.unparse(x.annotation)}
    # attributes that hold a parameter unchanged on some path
    holds = {}
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind == "setattr" and e.recv == SELF and e.val is not None and e.val[0] == "param" and e.val[1] in names:
                holds.setdefault(e.name, set()).add(e.val[1])
    mutated = [0]
    n = [0]

    def step(s, e):
        calls, used, excused, none, falsy, popped = s
        if e.kind == "assume":
            v = e.val == ("bool", True)
            t = e.recv
            if t[0] == "isnone" and t[1][0] == "param" and v:
                none |= {t[1][1]}
            if t[0] == "truth" and t[1][0] == "param" and not v:
                falsy |= {t[1][1]}
            ps = {u[1] for u in subterms(t) if u[0] == "param"}
            popped = frozenset(p for p in popped if not T.mentions(t, ("key", ("kwargs", kw), p)))
            if ps & set(names):
                excused |= ps
                if plugin and t[0] == "isnone" and v:
                    excused |= set(names)          # a plugin needs all of its options
                if t[0] == "lt0":
                    excused |= set(names) - {x for h in holds.values() for x in h}
            if plugin and (ps == {"self"} or any(u[0] in ("isinstance", "call") for u in subterms(t))):
                excused |= {x for x in names if not any(x in h for h in holds.values())}
            return calls, used, excused, none, falsy, popped
        found = set()
        vals = [e.val] if e.kind in ("setattr", "setitem") else []
        vals += [x for x in e.args.values() if isinstance(x, tuple)] if e.kind in ("call", "super", "new", "mutate", "yieldfrom") else []
        for x in vals:
            as_is(x, found)
            for u in subterms(x):
                if u[0] == "key" and u[1] == ("kwargs", kw):
                    popped = frozenset(p for p in popped if p != u[2])
        if e.kind == "setattr" and e.recv == SELF and e.name in holds:
            want = holds[e.name]
            if not (e.val[0] == "param" and e.val[1] in want) and not any(p in none for p in want):
                p = sorted(want)[0]
                if not (p in falsy and (p in strlike and p == "id" or e.val == ("bool", False))) and e.val[0] not in (
                        "list", "tuple", "copy"):
                    undecided(f"{e.name} is {T.show(e.val)[:100]}", e) if imprecise(e.val) and e.val[0] in ("unk", "phi", "junk") else fail(
                        f"a given {p} is replaced by {T.show(e.val)[:80]} although it is not None", e)
        if e.kind == "delitem" and e.recv == ("kwargs", kw) or e.kind == "pop" and e.recv == ("kwargs", kw):
            popped = popped | {e.arg("key") or e.arg("0")}
        if e.name == "__init__" and e.kind in ("call", "super"):
            n[0] += 1
            calls = min(calls + 1, 2)
            if calls > 1:
                fail("calls the next constructor more than once", e)
            for tok, nm, what in () if leaf else (("*", va, "positional"), ("**", kw, "keyword")):
                if nm is None:
                    continue
                got = e.arg(tok)
                want = ("args", nm) if tok == "*" else ("kwargs", nm)
                if got is None:
                    fail(f"the remaining {what} arguments are not handed to the next constructor", e)
                if got != want:
                    drop = [c[1] for u in subterms(got) if u[0] == "each" and u[1] == want and len(u) > 3 for c in u[3]
                            if c[0] == "not" and c[1][0] == "eq"]
                    for c in drop:
                        k = [x for x in c[1:] if x[0] == "str"]
                        if len(k) == 1 and k[0][1] not in {y.value for y in ast.walk(f.node) if isinstance(y, ast.Constant)
                                                           and not inside_comp(f.node, y)}:
                            fail(f"the option {k[0][1]} is not handed to the next constructor", e)
                    if T.mentions(got, want) or imprecise(got):
                        undecided(f"{what} arguments handed on: {T.show(got)[:100]}", e)
                    fail(f"{T.show(got)[:80]} is handed to the next constructor instead of the remaining {what} arguments", e)
        return calls, used | frozenset(found & set(names)), excused, none, falsy, popped

    def at_exit(s, kind, v, st):
        calls, used, excused, none, falsy, popped = s
        if kind != "return":
            return
        if not leaf and calls != 1:
            fail("returns without calling the next constructor")
        for p in names:
            if p in used or p in none or p in excused or (c.name, p) in CONVERTED:
                continue
            fail(f"the option {p} has no effect as given")
        if popped:
            fail(f"the option {T.show(sorted(popped, key=str)[0])} is removed and not used")

    e0 = frozenset()
    ck.walk(G, (0, e0, e0, e0, e0, e0), step, at_exit)
    # an option must be used on some path at all
    everywhere = set()
    for o in G.out:
        for e, _ in o:
            if e is not None and e.kind in ("setattr", "setitem", "call", "super", "new", "mutate"):
                for x in [e.val] + list(e.args.values()):
                    if isinstance(x, tuple):
                        as_is(x, everywhere)
    for p in names:
        if p not in everywhere and (c.name, p) not in CONVERTED:
            fail(f"the option {p} has no effect as given on any path")
    return max(n[0], 1)


def opaque_init(e):
    e.opaque.add("__init__")


def run(ck):
    for q, c, leaf in mixins(ck):
        ck.ob("constructor", c.name, lambda q=q, c=c, leaf=leaf: constructor(ck, q, c, leaf))
