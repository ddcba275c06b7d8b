"""Alias and mutation analysis: nothing reachable from what a report is given is written.

A forward abstract interpretation over the syntax trees, iterated to a fixpoint over parameters, returned values and attributes of
analysis objects.  A value carries, per input it may share structure with, the depth at which that sharing starts (0: the value
itself; a list built from an input has depth 1: the list is new, its elements are shared).  Attribute, subscript and iteration
go one level down; copies and displays go up; results of library calls outside the package are new, but the cells of a table
built from an input may be objects of that input.  Entry points: all functions
of the plot and io modules, get_subprocesses, the log view, the critical path classes and the graphs.  Reported: an assignment,
deletion, in-place operation, changing method, or scheduling call on a value of depth 0, in an entry point or anything it calls.
"""

import ast

from lib import AnalysisBroken, fail

LEVEL = "other"
ASSUMPTIONS = ["calls outside the package do not change their arguments, except by their changing methods or inplace=True"]
CHANGERS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "sort", "reverse", "update", "setdefault", "add",
            "discard", "appendleft", "popleft", "extendleft", "rotate", "difference_update", "intersection_update",
            "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "fill", "put", "resize", "itemset",
            "setfield", "partition", "request", "release", "succeed", "fail", "interrupt", "trigger", "process", "timeout", "run",
            "schedule", "step", "event", "all_of", "any_of", "add_edge", "add_node", "add_edges_from", "remove_edge", "remove_node",
            "set_index_inplace", "move_to_end"}
WRITERS = {"setattr": 0, "delattr": 0, "heappush": 0, "heappop": 0, "heapify": 0, "insort": 0, "shuffle": 0, "insort_left": 0,
           "insort_right": 0, "put": 0, "place": 0, "copyto": 0}
SAME = {"iter", "reversed", "filter", "cast", "getattr_default"}
UP1 = {"list", "dict", "set", "tuple", "sorted", "frozenset", "deque", "copy", "OrderedDict", "defaultdict", "array"}
UP2 = {"enumerate", "zip", "items", "product", "pairwise", "groupby", "combinations", "batched"}
VIEWS = {"values", "keys"}
READ = {"get"}
CAP = 4


def join(*vs):
    out = {}
    for v in vs:
        for o, l in v.items():
            out[o] = min(l, out.get(o, CAP))
    return out


def shift(v, by):
    return {o: min(max(l + by, 0), CAP) for o, l in v.items() if l + by < CAP and o[0] not in "@#"}


def down(v):
    """What an iteration gives.  "@o": a table (2) or a column or row of it (1), new itself, with cells that may belong to o;
    "#o": an iterator over rows (3) or numbered rows (4)."""
    out = {}
    for o, l in v.items():
        if o[0] == "@":
            if l == 1:
                out[o[1:]] = 0
        elif o[0] == "#":
            out = join(out, {o: 3} if l == 4 else {"@" + o[1:]: 1})
        else:
            out = join(out, {o: max(l - 1, 0)})
    return out


def table(v):
    return {"@" + o.lstrip("@#"): 2 for o in v}


def cells(b, deep=True):
    """Column, row or cell named in a table, row or column"""
    out = {}
    for o, l in b.items():
        if o[0] == "@":
            out = join(out, {o: 1} if l == 2 else {o[1:]: 0} if deep else {o: l})
    return out


def is_table(b):
    return any(o[0] in "@#" for o in b)


TABLE_ATTRS = {"loc", "iloc", "at", "iat", "str", "dt", "values", "index", "columns", "T", "array", "cat", "name", "dtype", "dtypes",
               "shape", "size", "empty"}
LISTED = {"tolist", "to_list", "unique"}


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.all_functions()]
        self.by_name = {}
        for f in self.funcs:
            if not f.is_property and not f.is_setter:
                self.by_name.setdefault(f.name, []).append(f)
        self.ctor = {}
        for q, c in prog.classes.items():
            if q.startswith("composite."):
                continue
            i = c.lookup("__init__")
            if i is not None:
                self.ctor.setdefault(q.rsplit(".", 1)[-1], []).append(i)
        self.props = {}
        for f in self.funcs:
            if f.is_property:
                self.props.setdefault(f.name, []).append(f)
        self.heap, self.param, self.ret = {}, {}, {}
        self.local = {}
        self.reached = set()
        self.entry = {}
        self.changed, self.report = True, False
        self.found = []
        self.sites = 0

    def up(self, table, key, v):
        old = table.get(key, {})
        new = join(old, v)
        if new != old:
            table[key] = new
            self.changed = True

    def bad(self, node, v, what):
        o = sorted(v for v, l in v.items() if l == 0)
        if self.report and o:
            x = (self.fn.qual, getattr(node, "lineno", 0), f"{what}, which belongs to {', '.join(o)[:120]}")
            if x not in self.found:
                self.found.append(x)

    def seed(self, f, me=False):
        ps = [p for p, _, _ in f.params()]
        for i, p in enumerate(ps):
            first = i == 0 and f.cls is not None and not f.is_static
            if first and not me:
                continue
            self.up(self.param, (f.qual, p), {f"{p} of {f.qual.replace('openclsim.', '')}": 0})
        self.reached.add(f.qual)

    def run(self):
        n = 0
        while self.changed and n < 15:
            self.changed = False
            n += 1
            for f in self.funcs:
                if f.qual in self.reached:
                    self.function(f)
        self.report = True
        for f in self.funcs:
            if f.qual in self.reached:
                self.function(f)
        return self.found

    def function(self, f):
        self.fn = f
        env = {}
        for p, _, _ in f.params():
            v = self.param.get((f.qual, p))
            if v:
                env[p] = dict(v)
        self.direct = {p for p, _, _ in f.params()}
        self.block(f.node.body, env)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def merge(self, env, *envs):
        keys = set().union(*[set(e) for e in envs])
        out = {k: join(*[e.get(k, {}) for e in envs]) for k in keys}
        env.clear()
        env.update({k: v for k, v in out.items() if v})

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a nested function: its parameters get what its calls give it
            e2 = dict(env)
            for a in st.args.posonlyargs + st.args.args + st.args.kwonlyargs:
                e2.pop(a.arg, None)
                v = self.local.get((self.fn.qual, st.name, a.arg))
                if v:
                    e2[a.arg] = dict(v)
            saved = getattr(self, "nested", None)
            self.nested = (self.fn.qual, st.name)
            self.block(st.body, e2)
            self.nested = saved
        elif isinstance(st, ast.ClassDef):
            self.block(st.body, dict(env))
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, st.value, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), st.value, env)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            self.sites += self.report
            if isinstance(t, ast.Name):
                old = env.get(t.id, {})
                listy = isinstance(st.value, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.SetComp, ast.DictComp)) or \
                    isinstance(st.value, ast.Call) and name_of(st.value) in UP1 | {"getattr"} or \
                    isinstance(st.value, ast.Attribute) and st.value.attr.endswith(("processes", "logbook", "list"))
                if 0 in old.values() and (listy or t.id in collections_of(self.fn.node) or any(l > 0 for l in v.values())):
                    self.bad(st, old, f"{ast.unparse(st)[:80]} changes {t.id}")
                n = join(old, shift(down(v), 1))
                if n:
                    env[t.id] = n
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, env)
                self.bad(st, b, f"{ast.unparse(st)[:80]} changes {ast.unparse(t.value)}")
                if not listless(st.value):
                    self.bad(st, self.attr(t.value, b, t.attr), f"{ast.unparse(st)[:80]} changes {ast.unparse(t)}")
            else:
                self.bad(st, self.ev(t.value, env), f"{ast.unparse(st)[:80]} changes {ast.unparse(t.value)}")
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.sites += self.report
                    self.bad(st, self.ev(t.value, env), f"{ast.unparse(st)[:80]} changes {ast.unparse(t.value)}")
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.give(self.ev(st.value, env))
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a, b = dict(env), dict(env)
            self.narrow(st.test, a, b)
            self.block(st.body, a)
            self.block(st.orelse, b)
            ends = (ast.Return, ast.Raise, ast.Continue, ast.Break)
            alive = [e for e, k in ((a, st.body), (b, st.orelse)) if not (k and isinstance(k[-1], ends))]
            self.merge(env, *(alive or [a, b]))
        elif isinstance(st, ast.While):
            self.ev(st.test, env)
            for _ in range(3):
                a = dict(env)
                self.block(st.body, a)
                self.merge(env, dict(env), a)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            for _ in range(3):
                v = self.ev(st.iter, env)
                a = dict(env)
                self.assign(st.target, down(v), None, a)
                self.block(st.body, a)
                self.merge(env, dict(env), a)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = dict(env)
            self.block(st.body, a)
            self.merge(env, dict(env), a)
            outs = []
            for h in st.handlers:
                b = dict(env)
                self.block(h.body, b)
                outs.append(b)
            self.block(st.orelse, a)
            self.merge(env, a, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, ast.Assert):
            self.ev(st.test, env)
        elif isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc, env)
        elif isinstance(st, ast.Match):
            self.ev(st.subject, env)
            outs = [dict(env)]
            for c in st.cases:
                b = dict(env)
                self.block(c.body, b)
                outs.append(b)
            self.merge(env, *outs)

    def narrow(self, test, a, b):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(
                test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is):
                a.pop(test.left.id, None)
            elif isinstance(test.ops[0], ast.IsNot):
                b.pop(test.left.id, None)

    def give(self, v):
        if getattr(self, "nested", None):
            self.up(self.local, self.nested + ("return",), v)
        else:
            self.up(self.ret, self.fn.qual, v)

    def assign(self, t, v, value, env):
        if isinstance(t, ast.Name):
            if v:
                env[t.id] = dict(v)
            else:
                env.pop(t.id, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, shift(down(v), 1), None, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(x, env) for x in value.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, None, env)
            else:
                for x in t.elts:
                    self.assign(x, down(v), None, env)
        elif isinstance(t, ast.Attribute):
            self.sites += self.report
            b = self.ev(t.value, env)
            if b and 0 in b.values():
                self.bad(t, b, f"{ast.unparse(t)} = ... changes {ast.unparse(t.value)}")
            else:
                self.up(self.heap, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.sites += self.report
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.bad(t, b, f"{ast.unparse(t)} = ... changes {ast.unparse(t.value)}")
            self.into(t.value, v, env)

    def into(self, x, v, env):
        """A value is placed in the container denoted by x."""
        v = shift(v, 1)
        if isinstance(x, ast.Name):
            n = join(env.get(x.id, {}), v)
            if n:
                env[x.id] = n
        elif isinstance(x, ast.Attribute):
            self.up(self.heap, x.attr, v)
        elif isinstance(x, ast.Subscript):
            self.into(x.value, v, env)

    # ---------------------------------------------------------------- expressions
    def attr(self, node, b, name):
        out = {}
        if is_table(b):
            rest = {o: l for o, l in b.items() if o[0] not in "@#"}
            if name in TABLE_ATTRS:
                return join({o: l for o, l in b.items() if o[0] == "@"}, self.attr(node, rest, name) if rest else {})
            return join(cells(b), self.attr(node, rest, name) if rest else {})
        if b:
            if name in self.props and 0 in b.values():
                for f in self.props[name]:
                    self.reach(f)
                    ps = [p for p, _, _ in f.params()]
                    if ps:
                        self.up(self.param, (f.qual, ps[0]), b)
                    out = join(out, {o: l for o, l in self.ret.get(f.qual, {}).items()})
                if name == "log":
                    # new columns (lists) holding the logged states and labels themselves
                    out = join(out, {o: 2 for o, l in b.items() if l == 0})
                return out
            out = down(b)
        h = self.heap.get(name)
        if h and not (b and 0 in b.values()):
            out = join(out, h)
        if name in self.props and not b:
            for f in self.props[name]:
                if f.qual in self.reached:
                    out = join(out, self.ret.get(f.qual, {}))
        return out

    def reach(self, f):
        if f.qual not in self.reached:
            self.reached.add(f.qual)
            self.changed = True

    def ev(self, x, env):
        if x is None or isinstance(x, ast.Constant):
            return {}
        if isinstance(x, ast.Name):
            return env.get(x.id, {})
        if isinstance(x, ast.Attribute):
            return self.attr(x, self.ev(x.value, env), x.attr)
        if isinstance(x, ast.Subscript):
            self.ev(x.slice, env)
            b = self.ev(x.value, env)
            if is_table(b):
                rest = {o: l for o, l in b.items() if o[0] not in "@#"}
                if isinstance(x.slice, ast.Constant) or isinstance(x.value, ast.Attribute) and x.value.attr in ("at", "iat"):
                    t = cells(b)
                    if isinstance(x.slice, ast.Tuple):
                        t = join(t, cells(t))
                else:
                    t = {o: l for o, l in b.items() if o[0] == "@"}
                return join(t, (shift(down(rest), 1) if isinstance(x.slice, ast.Slice) else down(rest)) if rest else {})
            if isinstance(x.slice, ast.Slice):
                return shift(down(b), 1) if b else {}
            return down(b)
        if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
            out = {}
            for e in x.elts:
                if isinstance(e, ast.Starred):
                    out = join(out, shift(down(self.ev(e.value, env)), 1))
                else:
                    out = join(out, shift(self.ev(e, env), 1))
            return out
        if isinstance(x, ast.Dict):
            out = {}
            for k, v in zip(x.keys, x.values):
                if k is None:
                    out = join(out, shift(down(self.ev(v, env)), 1))
                else:
                    self.ev(k, env)
                    out = join(out, shift(self.ev(v, env), 1))
            return out
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in x.generators:
                self.assign(g.target, down(self.ev(g.iter, e2)), None, e2)
                for c in g.ifs:
                    self.ev(c, e2)
            if isinstance(x, ast.DictComp):
                return shift(join(self.ev(x.key, e2), self.ev(x.value, e2)), 1)
            return shift(self.ev(x.elt, e2), 1)
        if isinstance(x, ast.BoolOp):
            return join(*[self.ev(v, env) for v in x.values])
        if isinstance(x, ast.IfExp):
            self.ev(x.test, env)
            a, b = dict(env), dict(env)
            self.narrow(x.test, a, b)
            return join(self.ev(x.body, a), self.ev(x.orelse, b))
        if isinstance(x, ast.BinOp):
            a, b = self.ev(x.left, env), self.ev(x.right, env)
            return shift(down(join(a, b)), 1) if isinstance(x.op, (ast.Add, ast.BitOr, ast.Mult)) else {}
        if isinstance(x, (ast.Compare, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue)):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return {}
        if isinstance(x, ast.NamedExpr):
            v = self.ev(x.value, env)
            self.assign(x.target, v, x.value, env)
            return v
        if isinstance(x, ast.Lambda):
            e2 = dict(env)
            for a in x.args.args:
                e2.pop(a.arg, None)
            self.ev(x.body, e2)
            return {}
        if isinstance(x, ast.Starred):
            return self.ev(x.value, env)
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(x.value, env)
            if isinstance(x, ast.Yield):
                self.give(shift(v, 1))
            return {}
        if isinstance(x, ast.Call):
            return self.call(x, env)
        return {}

    def call(self, x, env):
        m = name_of(x)
        base = self.ev(x.func.value, env) if isinstance(x.func, ast.Attribute) else {}
        sup = isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and name_of(x.func.value) == "super"
        if sup:
            base = env.get("self", {})
        args = [(None, a, self.ev(a, env)) for a in x.args] + [(k.arg or "**", k.value, self.ev(k.value, env)) for k in x.keywords]
        self.sites += self.report
        # a function given with the collection it is applied to
        lam, applied = {}, [a for _, a, _ in args if isinstance(a, ast.Lambda)]
        for a in applied:
            over = join(down(base), *[down(v) for _, _, v in args])
            e2 = dict(env)
            for p in a.args.args:
                e2[p.arg] = dict(over)
            lam = join(lam, self.ev(a.body, e2))
        if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in (
                "list", "dict", "set", "object") and (m in CHANGERS or m in ("__setattr__", "__delattr__")) and args:
            self.bad(x, args[0][2], f"{ast.unparse(x)[:80]} changes {ast.unparse(args[0][1])}")
        if m in ("DataFrame", "Series", "from_dict", "from_records") and args and m not in self.by_name:
            return table(join(*[v for _, _, v in args]))
        if is_table(base) and not any(o[0] not in "@#" for o in base) and not (m == "apply" and applied):
            if m == "iterrows" or m == "items" or m == "groupby":
                return {"#" + o[1:]: 4 for o in base}
            if m == "itertuples":
                return {"#" + o[1:]: 3 for o in base}
            if m in LISTED:
                return shift(down(base), 1)
            if m == "to_dict":
                return {o[1:]: 2 for o in base}
            return base
        # writes
        if any(k == "inplace" and not (isinstance(a, ast.Constant) and not a.value) for k, a, _ in args):
            self.bad(x, base, f"{ast.unparse(x)[:80]} changes {ast.unparse(x.func.value) if base else ''}")
            return {}
        if isinstance(x.func, ast.Attribute):
            if m in CHANGERS and not sup and not (m in self.by_name and m not in ("put", "step", "process") and False):
                self.bad(x, base, f"{ast.unparse(x)[:80]} changes {ast.unparse(x.func.value)}")
                if m in ("append", "add", "insert", "appendleft", "setdefault"):
                    for _, _, v in args[-1:]:
                        self.into(x.func.value, v, env)
                elif m in ("extend", "update"):
                    for k, _, v in args:
                        self.into(x.func.value, down(v), env)
                if m in ("pop", "popleft", "setdefault", "popitem"):
                    return down(base)
                if m not in self.by_name:
                    return {}
            if m == "get" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in ("container", "resource") or \
                    m == "get" and any(k == "amount" for k, _, _ in args):
                self.bad(x, base, f"{ast.unparse(x)[:80]} changes {ast.unparse(x.func.value)}")
                return {}
            if m in READ:
                return join(down(base), *[v for _, _, v in args[1:]])
            if m in VIEWS and not x.args:
                return base
            if m == "items" and not x.args:
                return shift(base, 1)
            if m == "copy" and not x.args:
                return shift(down(base), 1)
            if m == "__getattribute__":
                return down(base)
        if m in WRITERS and (not isinstance(x.func, ast.Attribute) or not base) and args and m not in self.by_name:
            self.bad(x, args[0][2], f"{ast.unparse(x)[:80]} changes {ast.unparse(args[0][1])}")
            return {}
        if isinstance(x.func, ast.Name):
            if m == "getattr":
                v = self.attr(x, args[0][2], args[1][1].value) if len(args) > 1 and isinstance(
                    args[1][1], ast.Constant) and isinstance(args[1][1].value, str) else down(args[0][2]) if args else {}
                return join(v, *[v for _, _, v in args[2:]])
            if m == "vars" and args:
                return args[0][2]
            if m == "next" and args:
                return down(args[0][2])
            if m in ("min", "max") and len(args) >= 1:
                return down(args[0][2])
            if m == "setattr":
                self.bad(x, args[0][2], f"{ast.unparse(x)[:80]} changes {ast.unparse(args[0][1])}")
            if m in SAME:
                return join(*[v for _, _, v in args]) if args else {}
            if m == "map" and applied:
                return shift(lam, 1)
            if m == "map":
                return shift(down(join(*[v for _, _, v in args])), 1) if args else {}
        if m in UP1 and m not in self.by_name:
            return shift(down(join(*[v for _, _, v in args])), 1) if args else {}
        if m in UP2 and m not in self.by_name:
            return shift(down(join(*[v for _, _, v in args])), 2) if args else {}
        if m == "chain" and args:
            return shift(down(join(*[v for _, _, v in args])), 1)
        if m == "from_iterable" and args:
            return shift(down(down(join(*[v for _, _, v in args]))), 1)
        # functions defined in this function
        if isinstance(x.func, ast.Name):
            for d in ast.walk(self.fn.node):
                if isinstance(d, ast.FunctionDef) and d.name == m and d is not self.fn.node:
                    ps = [a.arg for a in d.args.posonlyargs + d.args.args]
                    for i, (k, a, v) in enumerate(args):
                        n = k or (ps[i] if i < len(ps) else None)
                        if n:
                            self.up(self.local, (self.fn.qual, m, n), v)
                    return self.local.get((self.fn.qual, m, "return"), {})
        # the package's own functions
        mine, me = [], False
        if m in self.ctor and (isinstance(x.func, ast.Name) or not base):
            mine, me = self.ctor[m], True
        elif m in self.by_name and (not isinstance(x.func, ast.Attribute) or self.library(x, base, env)):
            mine = self.prog.named(self.fn.module, x.func, self.by_name[m])
            if sup and self.fn.cls is not None:
                up_ = self.prog.mro(self.fn.cls.qual)[1:]
                mine = [f for f in mine if f.cls is not None and f.cls.qual in up_][:1]
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in (
                    "self", "cls") and self.fn.cls is not None:
                q = self.fn.cls.qual
                mine = [f for f in mine if f.cls is not None and (f.cls.qual in self.prog.mro(q) or q in self.prog.mro(f.cls.qual))
                        ] or mine
        out = {}
        for f in mine:
            if f.qual in self.skip:
                continue
            if any(v for _, _, v in args) or base:
                self.reach(f)
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls"):
                self.reach(f)
            elif sup:
                self.reach(f)
            ps = [p for p, _, k in f.params() if k == "pos"]
            kws = {p for p, _, k in f.params()}
            off = 0
            if f.cls is not None and not f.is_static:
                off = 1
                if ps and not me and base:
                    self.up(self.param, (f.qual, ps[0]), base)
            for i, (k, a, v) in enumerate(args):
                if not v:
                    continue
                if k == "**":
                    continue
                n = k if k else ps[i + off] if i + off < len(ps) else None
                if n is None or n not in kws:
                    n = next((p for p, _, kk in f.params() if kk == ("**" if k else "*")), None)
                    v = shift(v, 1)
                if n:
                    self.up(self.param, (f.qual, n), v)
            if not me:
                out = join(out, self.ret.get(f.qual, {}))
        if mine:
            return out
        return {}

    skip = ()

    def library(self, x, base, env):
        """May the method call be one of the package's own methods?"""
        v = x.func.value
        if isinstance(v, ast.Name) and v.id in ("self", "cls"):
            return True
        if isinstance(v, ast.Call) and name_of(v) == "super":
            return True
        if isinstance(v, ast.Name) and v.id not in env and v.id in self.fn.module.symbols:
            r = self.prog.resolve_node(self.fn.module, x.func)
            return r is not None and r[0] in ("func", "class")
        return True


def collections_of(fnode):
    """Names that the function treats as collections, with the names that alias them."""
    out, alias = set(), set()
    for n in ast.walk(fnode):
        its = []
        if isinstance(n, (ast.For, ast.comprehension)):
            its.append(n.iter)
        elif isinstance(n, ast.Call) and name_of(n) in ("len", "isinstance", "list", "sorted", "enumerate", "zip") and n.args:
            if name_of(n) != "isinstance" or any(isinstance(y, ast.Name) and y.id in ("list", "dict", "set")
                                                 for y in ast.walk(n.args[1] if len(n.args) > 1 else n)):
                its.append(n.args[0])
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    alias.add((t.id, n.value.id))
        for i in its:
            if isinstance(i, ast.Call) and i.args and name_of(i) in ("enumerate", "reversed", "zip"):
                i = i.args[0]
            if isinstance(i, ast.Name):
                out.add(i.id)
    for _ in range(4):
        for a, b in alias:
            if b in out:
                out.add(a)
    return out


def listless(x):
    return isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Name, ast.Attribute, ast.Call))


def name_of(x):
    f = x.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"


CP_ENTRY = ("get_critical_path_df", "get_dependency_list", "get_recorded_activity_df", "make_plotly_gantt_chart", "combine_logs",
            "get_list_critical_activities", "get_list_dependencies", "get_list_base_activities",
            "get_log_dataframe_activity", "reshape_log")


def entries(prog):
    out = []
    for f in prog.all_functions():
        m = f.module.name
        public = not f.name.startswith("_")
        if m.startswith("openclsim.plot") or m == "openclsim.io":
            if f.cls is None and public:
                out.append((f, False, "reports"))
        elif m.startswith("openclsim.critical_path"):
            if f.cls is not None and any("simpy" in b for b in f.cls.ext_bases()):
                continue
            if f.name == "__init__" or f.name in CP_ENTRY:
                out.append((f, False, "critical path"))
        elif f.name == "get_subprocesses" and f.cls is None:
            out.append((f, False, "activity tree"))
        elif f.cls is not None and f.name in ("log", "get_log_as_json", "get_log_dataframe", "get_state"):
            out.append((f, True, "log view"))
    return out


def run(ck):
    prog = ck.prog
    es = entries(prog)
    if len(es) < 15:
        raise AnalysisBroken(f"only {len(es)} reporting functions found")
    groups = {}
    for f, me, g in es:
        groups.setdefault(g, []).append((f, me))
    n = 0
    for g, fs in sorted(groups.items()):
        it = Interp(prog)
        it.skip = {f.qual for f in prog.all_functions() if f.cls is not None and f.module.name.startswith("openclsim.critical_path")
                   and any("simpy" in b for b in f.cls.ext_bases())}
        for f, me in fs:
            it.seed(f, me)
        found = it.run()
        for q in it.reached:
            ck.funcs.add(q)

        def go(found=found, it=it):
            if found:
                q, line, what = found[0]
                fail(f"{q} (line {line}): {what}")
            return it.sites
        ck.ob("nothing that belongs to an input is written", g, go)
        n += len(it.reached)
    return n
