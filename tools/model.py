"""Program model: modules, name resolution, classes with C3 MRO, methods.

Everything is read from the source tree on every run (parsed, never imported).
"""

import ast
import copy
import hashlib
import os

REPO = os.environ.get("OPENCLSIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "openclsim"


class AnalysisBroken(Exception):
    """A public anchor of a rule has vanished: the check cannot answer."""


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        decos = set()
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name):
                decos.add(d.id)
            elif isinstance(d, ast.Attribute):
                decos.add(d.attr)
            elif isinstance(d, ast.Call):
                f = d.func
                decos.add(f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?"))
        self.decos = decos
        self.is_property = "property" in decos or "cached_property" in decos
        self.is_setter = "setter" in decos
        self.is_static = "staticmethod" in decos
        self.is_classmethod = "classmethod" in decos
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = contains_yield(self.node)
        return self._gen

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno} {self.qual}"

    def params(self):
        """[(name, default-ast or None, kind)]"""
        a = self.node.args
        out = []
        pos = a.posonlyargs + a.args
        nd = len(pos) - len(a.defaults)
        for i, p in enumerate(pos):
            out.append((p.arg, a.defaults[i - nd] if i >= nd else None, "pos"))
        if a.vararg:
            out.append((a.vararg.arg, None, "*"))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append((p.arg, d, "kw"))
        if a.kwarg:
            out.append((a.kwarg.arg, None, "**"))
        return out


def contains_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module, prog):
        self.qual, self.node, self.module, self.prog = qual, node, module, prog
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.consts = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{qual}.{st.name}", st, module, self)
                if f.is_setter:
                    self.setters[st.name] = f
                else:
                    self.methods[mangle(st.name, node.name)] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[mangle(t.id, node.name)] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[mangle(st.target.id, node.name)] = st.value

    @property
    def bases(self):
        return [self.prog.resolve_expr(self.module, b) for b in self.node.bases]

    @property
    def is_enum(self):
        return any(b in self.prog.ext_names("enum.Enum", "enum.IntEnum") for b in self.mro()[1:])

    def mro(self):
        return self.prog.mro(self.qual)

    def lookup(self, name):
        for q in self.mro():
            c = self.prog.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def lookup_const(self, name):
        for q in self.mro():
            c = self.prog.classes.get(q)
            if c and name in c.consts:
                return c, c.consts[name]
        return None

    def ext_bases(self):
        return [q for q in self.mro() if q not in self.prog.classes]


def mangle(name, clsname):
    if clsname and name.startswith("__") and not name.endswith("__"):
        return f"_{clsname.lstrip('_')}{name}"
    return name


IN_PLACE = {"append", "extend", "add", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear", "insert", "sort",
            "reverse"}


def changed_in_place(n):
    """The expressions whose values the statement or call n changes in place."""
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return [n.value]
    if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
        return [n.target if isinstance(n.target, ast.Attribute) else n.target.value]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in IN_PLACE:
        return [n.func.value]
    return []


class Loops(ast.NodeTransformer):
    """`it = iter(X)` / `while True: try: x = next(it) / except StopIteration: break; rest` is read as `for x in X: rest`."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        for n in ast.walk(fn):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and (len(b) > 1 or isinstance(b[0], ast.For)):
                    setattr(n, f, self.block(b, fn))
        return fn

    def block(self, body, fn):
        out = []
        for s in body:
            f = next_loop(s) if out and isinstance(s, ast.While) else None
            a = out[-1] if out else None
            if f is not None and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                    a.targets[0].id == f.iter.id and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and \
                    a.value.func.id == "iter" and len(a.value.args) == 1 and sum(
                        isinstance(n, ast.Name) and n.id == f.iter.id for n in ast.walk(fn)) == 2:
                f.iter = a.value.args[0]
                out[-1] = f
                continue
            g = counted_loop(out, s, fn) if isinstance(s, ast.While) else extreme(s, fn) if isinstance(s, ast.For) else None
            if g is not None:
                s = g
            out.append(s)
        return out


class Inline(ast.NodeTransformer):
    def __init__(self, values):
        self.values = values

    def visit_Name(self, n):
        return copy.deepcopy(self.values[n.id]) if n.id in self.values and isinstance(n.ctx, ast.Load) else n


def extreme(s, fn):
    """`for T in C: x = max(x, E)` (or `if E > x: x = E`; min alike) is read as x = max([x, *[E for T in C]]), or None."""
    if s.orelse or not s.body or not isinstance(s.target, (ast.Name, ast.Tuple)):
        return None
    *first, last = s.body
    values = {}
    for a in first:
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name)) or a.targets[0].id in values:
            return None
        values[a.targets[0].id] = Inline(values).visit(copy.deepcopy(a.value))
    def same(a, b):
        return ast.unparse(a) == ast.unparse(b)
    guard = None
    if isinstance(last, ast.If) and not last.orelse and len(last.body) == 1:
        guard, last = last.test, last.body[0]
    if not (isinstance(last, ast.Assign) and len(last.targets) == 1):
        return None
    x, v = last.targets[0], last.value
    if not (isinstance(x, ast.Name) or isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Name)):
        return None
    if guard is not None:
        if not (isinstance(guard, ast.Compare) and len(guard.ops) == 1 and isinstance(guard.ops[0], (ast.Lt, ast.Gt))):
            return None
        a, b = guard.left, guard.comparators[0]
        if isinstance(guard.ops[0], ast.Lt):
            a, b = b, a
        which = "max" if same(a, v) and same(b, x) else "min" if same(a, x) and same(b, v) else None
        e = v
    else:
        which = v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min") and not \
            v.keywords and len(v.args) == 2 else None
        e = None if which is None else v.args[1] if same(v.args[0], x) else v.args[0] if same(v.args[1], x) else None
    if which is None or e is None or isinstance(e, ast.Starred):
        return None
    e = Inline(values).visit(copy.deepcopy(e))
    bound = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    names = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
    if names & (bound | set(values)) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(s)):
        return None
    if any(same(n, x) for n in ast.walk(e)) or isinstance(x, ast.Name) and x.id in {n.id for n in ast.walk(s.iter) if isinstance(n, ast.Name)}:
        return None
    inside = {id(n) for n in ast.walk(s)}
    outside = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id in bound | set(values) and id(n) not in inside]
    loaded = {n.id for n in outside if isinstance(n.ctx, ast.Load)}
    if loaded - {n.id for n in outside if isinstance(n.ctx, ast.Store)}:
        return None
    load = copy.deepcopy(x)
    load.ctx = ast.Load()
    comp = ast.ListComp(elt=e, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])
    call = ast.Call(func=ast.Name(which, ast.Load()), keywords=[], args=[
        ast.List(elts=[load, ast.Starred(value=comp, ctx=ast.Load())], ctx=ast.Load())])
    out = ast.Assign(targets=[x], value=call)
    for n in (out, call, call.func, call.args[0], call.args[0].elts[1], comp):
        ast.copy_location(n, s)
    return ast.fix_missing_locations(out)


def counted_loop(before, s, fn):
    """The for loop over range(n) that a while loop counting a local name from 0 to n means, or None."""
    t = s.test
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq))):
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt) or isinstance(t.ops[0], ast.NotEq) and not isinstance(a, ast.Name):
        a, b = b, a
    if not isinstance(a, ast.Name):
        return None
    i = a.id
    inside = {id(n) for n in ast.walk(s)}
    stores = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == i and not isinstance(n.ctx, ast.Load)]
    init = [x for x in before if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
            and x.targets[0].id == i and isinstance(x.value, ast.Constant) and x.value.value == 0 and not isinstance(x.value.value, bool)]
    steps = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i
             and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
    if len(init) != 1 or len(steps) != 1 or len(stores) != 2:
        return None
    k = steps[0]
    # the count is not used after it has been increased, and nothing skips the increase
    used = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == i]
    after = {id(n) for x in s.body[k + 1:] for n in ast.walk(x)}
    if any(id(n) in after or id(n) not in inside and n is not init[0].targets[0] for n in used):
        return None
    if any(isinstance(n, ast.Continue) for x in s.body[:k] for n in ast.walk(x)):
        return None
    changed = {ast.unparse(n) for n in ast.walk(s) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del))}
    c = b.args[0] if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 else b
    if c is b and not isinstance(b, (ast.Name, ast.Constant)):
        return None
    if isinstance(c, ast.Call) or {ast.unparse(n) for n in ast.walk(c)} & changed:
        return None
    if c is not b and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == ast.unparse(c)
                          for n in ast.walk(s)):
        return None
    rng = ast.Call(func=ast.Name("range", ast.Load()), args=[b], keywords=[])
    f = ast.For(target=ast.Name(i, ast.Store()), iter=rng, body=s.body[:k] + s.body[k + 1:] or [ast.Pass()], orelse=[])
    ast.copy_location(f, s)
    for n in (f.target, rng, rng.func):
        ast.copy_location(n, t)
    if isinstance(f.body[0], ast.Pass):
        ast.copy_location(f.body[0], s)
    return f


def next_loop(s):
    """The for loop a `while True: try: x = next(it) / except StopIteration: break; rest` means, or None."""
    if not (isinstance(s.test, ast.Constant) and s.test.value and s.body and isinstance(s.body[0], ast.Try) and not s.orelse):
        return None
    t = s.body[0]
    if len(t.body) != 1 or t.finalbody or len(t.handlers) != 1 or not isinstance(t.body[0], ast.Assign):
        return None
    a, h = t.body[0], t.handlers[0]
    if not (len(a.targets) == 1 and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == "next"
            and len(a.value.args) == 1 and isinstance(a.value.args[0], ast.Name) and not a.value.keywords
            and isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
        return None
    nm = a.value.args[0].id
    rest = t.orelse + s.body[1:]
    if any(isinstance(n, ast.Name) and n.id == nm for x in rest for n in ast.walk(x)):
        return None
    return ast.copy_location(ast.For(target=a.targets[0], iter=a.value.args[0], body=rest or [ast.copy_location(ast.Pass(), s)], orelse=[]), s)


class Module:
    def __init__(self, name, path, prog):
        self.name, self.path, self.prog = name, path, prog
        self.relpath = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = Loops().visit(ast.parse(self.text, filename=path))
        self.is_pkg = path.endswith("__init__.py")
        self.symbols = {}
        self.top = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.symbols[a.asname] = ("module", a.name)
                    else:
                        self.symbols[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.symbols[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{self.name}.{st.name}"
                self.prog.functions[q] = Func(q, st, self)
                self.symbols[st.name] = ("func", q)
            elif isinstance(st, ast.ClassDef):
                q = f"{self.name}.{st.name}"
                self.prog.classes[q] = Class(q, st, self, self.prog)
                self.symbols[st.name] = ("class", q)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.symbols[n.id] = ("const", self.name, n.id, st.value if isinstance(t, ast.Name) else None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.symbols[st.target.id] = ("const", self.name, st.target.id, st.value)
            elif isinstance(st, ast.Try):
                # the first alternative wins (compatibility fallbacks live in the handlers)
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)
            elif isinstance(st, ast.If):
                self._collect(st.orelse)
                self._collect(st.body)


class Program:
    def __init__(self, src=SRC):
        self.src = src
        self.modules, self.functions, self.classes = {}, {}, {}
        self._mro = {}
        root = os.path.join(src, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is missing")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, src)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(name, p, self)
        # synthetic compositions
        self._method_defs = None

    def rewritten(self):
        """(names of attributes, (module, name) of variables) that functions give new values or change in place."""
        if getattr(self, "_rewritten", None) is None:
            attrs, names = set(), set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        attrs.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") \
                            and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        attrs.add(n.args[1].value)
                    for b in changed_in_place(n):
                        if isinstance(b, ast.Attribute):
                            attrs.add(b.attr)
                            r = self.resolve_node(m, b)
                            if r is not None and r[0] == "const":
                                names.add((r[1], r[2]))
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        own = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
                        shared, used = set(), set()
                        for x in ast.walk(n):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                own.add(x.id)
                            elif isinstance(x, ast.Global):
                                shared |= set(x.names)
                            used |= {b.id for b in changed_in_place(x) if isinstance(b, ast.Name)}
                        for x in shared | (used - own):
                            r = self.resolve_name(m, x)
                            if r is not None and r[0] == "const":
                                names.add((r[1], r[2]))
            self._rewritten = attrs, names
        return self._rewritten

    def dict_attrs(self):
        """Attributes that are only ever given a mapping (self.x = {...}, dict(...), defaultdict(...))."""
        if getattr(self, "_dict_attrs", None) is None:
            good, bad = set(), set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and \
                        n.value is not None else []
                    for t in ts:
                        if isinstance(t, ast.Attribute):
                            v = n.value
                            f = v.func if isinstance(v, ast.Call) else None
                            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                            ok = isinstance(v, (ast.Dict, ast.DictComp)) or nm in ("dict", "defaultdict", "OrderedDict")
                            (good if ok else bad).add(t.attr)
            self._dict_attrs = good - bad
        return self._dict_attrs

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].text.encode())
        return h.hexdigest()

    def ext_names(self, *names):
        return set(names)

    # ------------------------------------------------------------ resolution
    def resolve_name(self, module, name, seen=()):
        s = module.symbols.get(name)
        if s is None:
            sub = f"{module.name}.{name}"
            if sub in self.modules:
                return ("module", sub)
            return None
        return self._resolve_symbol(s, seen)

    def _resolve_symbol(self, s, seen=()):
        if s[0] in ("func", "class", "const"):
            return s
        if s[0] == "module":
            return s
        if s[0] == "from":
            _, base, nm = s
            if base in self.modules:
                m = self.modules[base]
                if (base, nm) in seen:
                    return ("ext", f"{base}.{nm}")
                if nm in m.symbols:
                    return self._resolve_symbol(m.symbols[nm], seen + ((base, nm),))
                if f"{base}.{nm}" in self.modules:
                    return ("module", f"{base}.{nm}")
                return ("ext", f"{base}.{nm}")
            if f"{base}.{nm}" in self.modules:
                return ("module", f"{base}.{nm}")
            return ("ext", f"{base}.{nm}")
        return s

    def resolve_attr(self, base, attr):
        """Attribute of a resolved module-like symbol."""
        if base[0] == "module":
            m = base[1]
            if m in self.modules:
                r = self.resolve_name(self.modules[m], attr)
                return r if r is not None else ("ext", f"{m}.{attr}")
            return ("ext", f"{m}.{attr}")
        if base[0] == "ext":
            return ("ext", f"{base[1]}.{attr}")
        return None

    def named(self, module, func, cands):
        """The functions among cands (all of one name) that a call of the expression func in module can mean.

        A plain name or a name within a module means what it is bound to there; otherwise (a local name, a method) any of them.
        """
        r = self.resolve_node(module, func) if isinstance(func, ast.Name) or isinstance(func, ast.Attribute) and isinstance(
            self.resolve_node(module, func.value), tuple) else None
        if r is None:
            if isinstance(func, ast.Name):
                # not bound in the module: a function or variable of an enclosing function
                return [f for f in cands if f.cls is None]
            return list(cands)
        if r[0] == "func":
            return [f for f in cands if f.qual == r[1]] or list(cands)
        if r[0] == "ext":
            return []
        return list(cands)

    def resolve_expr(self, module, node):
        """Qualified name (string) of a class expression."""
        r = self.resolve_node(module, node)
        if r is None:
            return ast.unparse(node)
        if r[0] in ("class", "func", "ext", "module"):
            return r[1]
        return ast.unparse(node)

    def resolve_node(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_node(module, node.value)
            if b is None:
                return None
            return self.resolve_attr(b, node.attr)
        return None

    def fold(self, module, node, cls=None, depth=0):
        """The number or text a constant expression stands for, else None."""
        if depth > 8:
            return None
        if isinstance(node, ast.Constant):
            return node.value if isinstance(node.value, (int, float, str)) else None
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = self.fold(module, node.operand, cls, depth + 1)
            return -v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            a, b = (self.fold(module, x, cls, depth + 1) for x in (node.left, node.right))
            if not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in (a, b)):
                return None
            if isinstance(node.op, ast.Div):
                return a / b if b else None
            return a + b if isinstance(node.op, ast.Add) else a - b if isinstance(node.op, ast.Sub) else a * b
        if isinstance(node, ast.Name) and cls is not None and node.id in cls.consts:
            return self.fold(module, cls.consts[node.id], cls, depth + 1)
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.resolve_node(module, node)
            if r is not None and r[0] == "const" and r[1] in self.modules and (r[1], r[2]) not in self.rewritten()[1]:
                return self.fold(self.modules[r[1]], r[3], None, depth + 1)
        return None

    # ------------------------------------------------------------ classes
    def mro(self, qual):
        if qual in self._mro:
            return self._mro[qual]
        c = self.classes.get(qual)
        if c is None:
            return [qual] if qual == "object" else [qual, "object"]
        self._mro[qual] = [qual, "object"]  # cycle guard
        bases = c.bases
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        if not bases:
            seqs = [["object"]]
        res = [qual]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[qual] = res
        return res

    def add_composite(self, name, bases):
        """A synthetic class composed of the given classes (as users compose them)."""
        q = f"composite.{name}"
        if q not in self.classes:
            node = ast.ClassDef(name=name, bases=[], keywords=[], body=[ast.Pass()], decorator_list=[])
            c = Class(q, node, next(iter(self.modules.values())), self)
            self.classes[q] = c
            bs = [self.find_class(b).qual for b in bases]
            type(c)  # keep linters quiet
            c.__class__ = _Composite
            c._bases = bs
        return q

    def find_class(self, qual):
        """Find a public class by dotted name, also when it moved behind a re-export."""
        if qual in self.classes:
            return self.classes[qual]
        modname, _, nm = qual.rpartition(".")
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve_name(m, nm)
            if r and r[0] == "class":
                return self.classes[r[1]]
        # moved: unique class of that name in the package
        cands = [c for q, c in self.classes.items() if q.endswith("." + nm) and not q.startswith("composite.")]
        if len(cands) == 1:
            return cands[0]
        raise AnalysisBroken(f"class {qual} not found")

    def find_method(self, qual, name):
        c = self.find_class(qual)
        f = c.lookup(name)
        if f is None:
            raise AnalysisBroken(f"method {qual}.{name} not found")
        return f

    def find_function(self, qual):
        if qual in self.functions:
            return self.functions[qual]
        modname, _, nm = qual.rpartition(".")
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve_name(m, nm)
            if r and r[0] == "func":
                return self.functions[r[1]]
        cands = [f for q, f in self.functions.items() if q.endswith("." + nm)]
        if len(cands) == 1:
            return cands[0]
        raise AnalysisBroken(f"function {qual} not found")

    def methods_named(self, name):
        if self._method_defs is None:
            self._method_defs = {}
            for q, c in self.classes.items():
                if q.startswith("composite."):
                    continue
                for n, f in c.methods.items():
                    self._method_defs.setdefault(n, []).append(f)
        return self._method_defs.get(name, [])

    def method_names(self):
        """Names that hold methods: defined in a class, or assigned a method of self (self.a = self.method)."""
        if not hasattr(self, "_method_names"):
            names = set()
            for c in self.classes.values():
                names |= {n for n, f in c.methods.items() if not any(
                    getattr(x, "id", "") == "property" for x in f.node.decorator_list)}
            for f in self.all_functions():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in names:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and getattr(t.value, "id", "") == "self" == getattr(n.value.value, "id", ""):
                                names = names | {t.attr}
            self._method_names = names
        return self._method_names

    def all_functions(self):
        """Every function and method body of the package (with nested functions)."""
        out = []
        for q, f in self.functions.items():
            out.append(f)
        for q, c in self.classes.items():
            if q.startswith("composite."):
                continue
            out.extend(c.methods.values())
            out.extend(c.setters.values())
        return out

    def subclasses(self, qual):
        return [q for q in self.classes if qual in self.mro(q) and not q.startswith("composite.")]


class _Composite(Class):
    @property
    def bases(self):
        return self._bases
