"""Escape and mutation analysis of everything that outlives one object: default arguments, class attributes, module variables.

Mutable default arguments: on every path of the function (effect graph) the default object may not be stored, changed, returned
or handed to library code.  Class-level and module-level objects: every use in the package is classified; an object that is
changed (by a method, a subscript, next() or an in-place operator) or that escapes into an attribute, a container or a return
value is shared state.  No function may rebind a module variable or a class attribute, and no method's result may be cached
across calls.
"""

import ast

import terms as T
from lib import fail, imprecise, undecided

LEVEL = "other"
ASSUMPTIONS = ["objects of libraries at module level (loggers, the geodesic) hold no simulation state"]
FRESH = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "array", "zeros", "DataFrame",
         "Series", "Environment", "Resource", "Store", "FilterStore", "Event", "count", "cycle", "iter", "WeakValueDictionary",
         "WeakKeyDictionary", "DiGraph", "Graph", "SimpleNamespace"}
IMMUTABLE = {"frozenset", "tuple", "str", "int", "float", "bool", "getLogger", "Geod", "compile", "TypeVar", "namedtuple",
             "NewType", "MappingProxyType", "Decimal", "Fraction", "Path", "object", "property", "auto", "field", "timedelta",
             "datetime", "Point"}
CHANGERS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
            "discard", "appendleft", "popleft", "difference_update", "intersection_update", "__setitem__", "__delitem__"}
READERS = {"items", "keys", "values", "get", "copy", "index", "count", "union", "difference", "intersection", "join", "format"}
COPIERS = {"list", "dict", "set", "tuple", "sorted", "frozenset", "len", "sum", "min", "max", "any", "all", "enumerate", "zip",
           "map", "filter", "isinstance", "hasattr", "bool", "str", "repr", "print", "reversed", "deepcopy", "copy", "range", "id",
           "type", "getattr"}


def callee(x):
    f = x.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"


def mutable(x, ck):
    """Does the expression build an object that can be changed?"""
    if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        return True
    if isinstance(x, ast.Call):
        n = callee(x)
        if n in FRESH:
            return True
        if n in IMMUTABLE:
            return False
        return any(q.rsplit(".", 1)[-1] == n for q in ck.prog.classes)
    if isinstance(x, ast.Tuple):
        return any(mutable(v, ck) for v in x.elts)
    if isinstance(x, (ast.BoolOp,)):
        return any(mutable(v, ck) for v in x.values)
    if isinstance(x, ast.IfExp):
        return mutable(x.body, ck) or mutable(x.orelse, ck)
    return False


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def use(node, par, fnode, ck, depth=0):
    """How the object denoted by this load is used: None (read), or ('changed'|'escapes', where)."""
    x, up = node, par.get(node)
    while isinstance(up, (ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Starred)) and not (isinstance(up, ast.IfExp) and up.test is x):
        if isinstance(up, ast.Starred):
            return None
        x, up = up, par.get(up)
    if isinstance(up, ast.Attribute):
        g = par.get(up)
        if isinstance(g, ast.Call) and g.func is up:
            if up.attr in CHANGERS:
                return "changed", g
            if up.attr in ("get", "setdefault", "pop") and up.attr != "get":
                return "changed", g
            return None
        if isinstance(up.ctx, (ast.Store, ast.Del)):
            return "changed", up
        return None
    if isinstance(up, ast.Subscript) and up.value is x:
        if isinstance(up.ctx, (ast.Store, ast.Del)):
            return "changed", up
        g = par.get(up)
        if isinstance(g, ast.AugAssign) and g.target is up:
            return "changed", g
        return None
    if isinstance(up, ast.AugAssign) and up.target is x:
        return "changed", up
    if isinstance(up, ast.Call):
        n = callee(up)
        if n == "next":
            return "changed", up
        if n in COPIERS:
            return None
        if any(f.name == n for f in ck.prog.all_functions()) or any(q.rsplit(".", 1)[-1] == n for q in ck.prog.classes):
            return "escapes", up
        if n in CHANGERS and isinstance(up.func, ast.Attribute):
            return "escapes", up
        return None
    if isinstance(up, ast.keyword):
        g = par.get(up)
        if up.arg is None:
            return None
        n = callee(g)
        if any(f.name == n for f in ck.prog.all_functions()) or any(q.rsplit(".", 1)[-1] == n for q in ck.prog.classes):
            return "escapes", g
        return None
    if isinstance(up, (ast.Return, ast.Yield)):
        return "escapes", up
    if isinstance(up, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
        return "escapes", up
    if isinstance(up, (ast.Assign, ast.AnnAssign)):
        ts = up.targets if isinstance(up, ast.Assign) else [up.target]
        for t in ts:
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                return "escapes", up
        for t in ts:
            if isinstance(t, ast.Name) and depth < 3:
                for y in ast.walk(fnode):
                    if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id == t.id:
                        return "changed", y
                for y in ast.walk(fnode):
                    if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load):
                        r = use(y, par, fnode, ck, depth + 1)
                        if r:
                            return r
    return None


def at(fn, node):
    return f"{fn.qual} (line {getattr(node, 'lineno', '?')})"


def defaults(ck):
    n = 0
    for fn in ck.prog.all_functions():
        ck.funcs.add(fn.qual)
        a = fn.node.args
        pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [
            (p, x) for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None]
        n += len(pairs)
        for p, x in pairs:
            if mutable(x, ck):
                default_escapes(ck, fn, p.arg)
        for y in ast.walk(fn.node):
            if y is not fn.node and isinstance(y, (ast.FunctionDef, ast.Lambda)):
                for x in y.args.defaults + [k for k in y.args.kw_defaults if k]:
                    n += 1
    return n


def default_escapes(ck, fn, p):
    P = ("param", p)
    G = ck.graph(None, None, fn=fn, self_type=fn.cls.qual if fn.cls else None,
                 setup=lambda e: e.opaque.add("__init__"))
    names = {f.name for f in ck.prog.all_functions()} | {q.rsplit(".", 1)[-1] for q in ck.prog.classes}

    def inside(t):
        while t[0] == "key":
            t = t[1]
        return t == P

    def holds(t):
        if t == P:
            return True
        return t[0] in ("dict", "list", "tuple", "set") and any(
            holds(x) for i in t[1] if i[0] in ("item", "kv") for x in i[1:] if isinstance(x, tuple))

    def step(full, e):
        if e.kind == "assume" and e.recv == ("truth", P):
            return full or e.val == ("bool", True)
        if e.kind == "assume" and e.recv[0] == "eq" and P in e.recv[1:]:
            o = e.recv[2] if e.recv[1] == P else e.recv[1]
            if o[0] in ("dict", "list", "tuple", "set") and not (o[1] if len(o) > 1 else ()):
                return full or e.val == ("bool", False)
        if full:
            return full
        w = f"the default object of {p} in {fn.qual}"
        if e.kind == "setattr" and e.val is not None and holds(e.val):
            fail(f"{w} is stored in an object", e)
        if e.kind in ("mutate", "setitem", "delitem", "pop") and inside(e.recv):
            fail(f"{w} is changed", e)
        if e.kind in ("call", "super", "new", "yieldfrom") and any(holds(x) for x in e.args.values() if isinstance(x, tuple)):
            if e.kind in ("super",) or str(e.name).rsplit(".", 1)[-1] in names:
                fail(f"{w} is handed on to {e.name}", e)
        if e.kind in ("mutate", "setitem") and any(holds(x) for x in [e.val] + list(e.args.values()) if isinstance(x, tuple)):
            fail(f"{w} is stored in a container", e)
        return full

    def at_exit(full, kind, v, st):
        if kind == "return" and v is not None and not full and holds(v):
            fail(f"the default object of {p} in {fn.qual} is returned")
    ck.walk(G, False, step, at_exit)


def class_level(ck):
    n = 0
    for q, c in sorted(ck.prog.classes.items()):
        if q.startswith("composite."):
            continue
        for name, x in c.consts.items():
            n += 1
            family = {k for k in ck.prog.classes if q in ck.prog.mro(k)}
            attrs = {name}
            for k in family:
                pass
            for fn in ck.prog.all_functions():
                par = None
                for y in ast.walk(fn.node):
                    if not isinstance(y, ast.Attribute):
                        continue
                    nm = y.attr
                    if nm not in attrs and not (nm.startswith("__") and name.endswith(nm)):
                        continue
                    b = y.value
                    owner = isinstance(b, ast.Name) and (b.id == "cls" or any(k.rsplit(".", 1)[-1] == b.id for k in family)) or \
                        isinstance(b, ast.Call) and callee(b) == "type" or isinstance(b, ast.Attribute) and b.attr == "__class__"
                    inst = isinstance(b, ast.Name) and b.id == "self" and fn.cls is not None and (
                        fn.cls.qual in family or any(fn.cls.qual in ck.prog.mro(k) for k in family))
                    if not owner and not inst:
                        continue
                    if isinstance(y.ctx, (ast.Store, ast.Del)) and owner:
                        fail(f"{at(fn, y)} rebinds the class attribute {c.name}.{name}")
                    if not isinstance(y.ctx, ast.Load) or not mutable(x, ck):
                        continue
                    if inst and own_instance_value(ck, fn.cls.qual, name):
                        continue
                    par = par or parents(fn.node)
                    r = use(y, par, fn.node, ck)
                    if r and r[0] == "changed":
                        fail(f"the class-level object {c.name}.{name} is changed in {at(fn, r[1])}")
                    if r:
                        fail(f"the class-level object {c.name}.{name}, shared by all objects, escapes in {at(fn, r[1])}")
    return n


def own_instance_value(ck, q, name):
    """Does a constructor of the class set the attribute of the instance?"""
    for k in ck.prog.mro(q):
        c = ck.prog.classes.get(k)
        f = c and c.methods.get("__init__")
        if f and any(isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name)
                     and y.value.id == "self" for y in f.node.body for y in ast.walk(y)):
            return True
    return False


def rebinding(ck):
    """No function assigns to an attribute of a class or a module, or declares a module variable global."""
    n = 0
    classes = {q.rsplit(".", 1)[-1] for q in ck.prog.classes if not q.startswith("composite.")}
    classes |= {f.name for f in ck.prog.all_functions() if f.cls is None}
    for fn in ck.prog.all_functions():
        n += 1
        bound = {p for p, _, _ in fn.params()} | {y.id for y in ast.walk(fn.node) if isinstance(y, ast.Name) and isinstance(
            y.ctx, ast.Store)}
        imports = {(a.asname or a.name).split(".")[0] for y in fn.module.tree.body if isinstance(y, (ast.Import, ast.ImportFrom))
                   for a in y.names} - bound
        declared = {g for y in ast.walk(fn.node) if isinstance(y, ast.Global) for g in y.names}
        for y in ast.walk(fn.node):
            if isinstance(y, ast.Name) and y.id in declared and isinstance(y.ctx, (ast.Store, ast.Del)):
                fail(f"{at(fn, y)} rebinds the module variable {y.id}")
            if isinstance(y, ast.Attribute) and isinstance(y.ctx, (ast.Store, ast.Del)):
                b = y.value
                if isinstance(b, ast.Name) and b.id in classes and b.id not in {p for p, _, _ in fn.params()} or \
                        isinstance(b, ast.Name) and b.id == "cls" and fn.is_classmethod or \
                        isinstance(b, ast.Call) and callee(b) == "type" or isinstance(b, ast.Attribute) and b.attr == "__class__":
                    fail(f"{at(fn, y)} sets the class attribute {ast.unparse(y)}")
                top = b
                while isinstance(top, ast.Attribute):
                    top = top.value
                if isinstance(top, ast.Name) and top.id in imports:
                    fail(f"{at(fn, y)} sets {ast.unparse(y)}, which all simulations share")
                if isinstance(b, ast.Name) and b.id in ("core", "model", "plugins", "openclsim", "simpy") and b.id not in {
                        p for p, _, _ in fn.params()}:
                    fail(f"{at(fn, y)} sets the module variable {ast.unparse(y)}")
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "setattr" and y.args:
                b = y.args[0]
                if isinstance(b, ast.Name) and (b.id in classes or b.id == "cls") or isinstance(b, ast.Call) and callee(b) == "type":
                    fail(f"{at(fn, y)} sets an attribute of a class")
        if fn.decos & {"lru_cache", "cache"} and any(
                isinstance(y, ast.Return) and y.value is not None and mutable(y.value, ck) for y in ast.walk(fn.node)):
            fail(f"{fn.qual} hands out the same object at every call")
        if fn.decos & {"lru_cache", "cache"} and fn.cls is not None and not fn.is_static:
            fail(f"the results of {fn.qual} are cached across calls although they depend on the object")
    return n


def module_level(ck):
    n = 0
    for mod in sorted(ck.prog.modules.values(), key=lambda m: m.name):
        for st in mod.tree.body:
            if not isinstance(st, (ast.Assign, ast.AnnAssign)) or st.value is None:
                continue
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                if not isinstance(t, ast.Name) or t.id == "__all__":
                    continue
                n += 1
                maker = [f for f in ck.prog.all_functions() if isinstance(st.value, ast.Call) and f.name == callee(st.value)
                         and any(isinstance(y, ast.Nonlocal) for y in ast.walk(f.node))]
                if maker:
                    for fn in ck.prog.all_functions():
                        for y in ast.walk(fn.node):
                            if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == t.id and fn.module is mod:
                                fail(f"the variables of {t.id}, made by {maker[0].qual}, are changed in {at(fn, y)}")
                if not mutable(st.value, ck):
                    continue
                for fn in ck.prog.all_functions():
                    same = fn.module is mod
                    imported = fn.module.symbols.get(t.id) if hasattr(fn.module, "symbols") else None
                    if not same and not (imported and mod.name.rsplit(".", 1)[-1] in str(imported)):
                        continue
                    if t.id in {p for p, _, _ in fn.params()}:
                        continue
                    par = None
                    for y in ast.walk(fn.node):
                        if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load):
                            par = par or parents(fn.node)
                            r = use(y, par, fn.node, ck)
                            if r:
                                fail(f"the module variable {mod.name}.{t.id} "
                                     f"{'is changed' if r[0] == 'changed' else 'escapes'} in {at(fn, r[1])}")
    return n


def run(ck):
    ck.ob("default arguments", "package", lambda: defaults(ck))
    ck.ob("class attributes", "package", lambda: class_level(ck))
    ck.ob("module variables", "package", lambda: module_level(ck))
    ck.ob("rebinding", "package", lambda: rebinding(ck))
