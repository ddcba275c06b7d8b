"""Taint analysis: sources of nondeterminism (random numbers, clocks, environment, object identity, arbitrary order of sets) may not reach the simulation.

A forward abstract interpretation of the syntax tree of every function of the simulation packages, iterated to a fixpoint over
parameters, return values and attributes (with container depth, so a mapping of sets is known as such).  Tags: S a set, U an
ordered collection whose order came from a set, D a mapping whose insertion order came from a set, N a value that differs between
runs (NU: a random default id, which may be stored as the id of an object).  Reported: picking an element of a set, a loop
over a set whose body does something that does not commute (schedules, waits, leaves early, touches a shared object), and a
value that differs between runs in a condition, an entry, or a call that schedules.
"""

import ast

from lib import AnalysisBroken, fail

LEVEL = "other"
ASSUMPTIONS = ["simpy's all_of and any_of over distinct events do not depend on their order", "dictionaries keep insertion order"]

SIM = ("openclsim.core", "openclsim.model", "openclsim.plugins", "openclsim.utils",
       "openclsim.critical_path.dependencies_from_simpy_step")
REPORT = {"get_log_dataframe", "get_log_as_json", "get_dependency_list", "get_recorded_activity_df", "__str__", "__repr__"}
CLOCKS = ("time.time", "time.monotonic", "time.perf_counter", "time.process_time", "time.time_ns", "time.monotonic_ns",
          "time.perf_counter_ns", "time.localtime", "time.gmtime", "time.ctime", "time.mktime", "time.tzname", "time.timezone",
          "time.altzone", "time.strftime", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today",
          "datetime.date.today", "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow",
          "os.environ", "os.getenv", "os.getpid", "os.urandom", "os.times", "os.listdir", "os.scandir", "os.walk", "os.cpu_count",
          "glob.glob", "socket.gethostname", "threading.get_ident", "threading.active_count", "sys.getrefcount", "gc.get_objects",
          "tempfile.mktemp", "tempfile.gettempdir", "platform.node", "getpass.getuser", "locale.getlocale", "os.path.getmtime",
          "os.path.exists", "weakref.getweakrefcount")
RANDOM = ("random.", "numpy.random.", "secrets.", "uuid.uuid", "scipy.stats.")
SCHED = {"timeout", "Timeout", "process", "Process", "succeed", "put", "request", "schedule", "all_of", "any_of", "release",
         "interrupt", "event", "fail", "trigger"}
SCHEDULING = SCHED - {"all_of", "any_of"}
SHOW = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "print"}
ORDERED = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter", "array", "asarray", "deque", "chain", "islice",
           "DataFrame", "Series", "fromkeys", "concat", "join", "repeat", "accumulate"}
ANY_ORDER = {"set", "frozenset", "len", "any", "all", "sum", "fsum", "bool", "isinstance", "all_of", "any_of", "AllOf", "AnyOf",
             "min", "max", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference",
             "drop", "isin", "hasattr", "type", "count", "copy", "discard", "add", "difference_update", "update_set", "str", "repr",
             "DiGraph"}
PURE = {"str", "int", "float", "round", "abs", "min", "max", "bool", "repr", "sum", "format", "len"}


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.all_functions() if f.module.name.startswith(SIM) and f.name not in REPORT]
        self.by_name = {}
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)
        for q, c in prog.classes.items():
            if q.startswith(SIM):
                i = c.lookup("__init__") if hasattr(c, "lookup") else None
                if i is not None:
                    self.by_name.setdefault(q.rsplit(".", 1)[-1], []).append(i)
        self.props = {f.name for f in self.funcs if f.is_property}
        self.heap, self.param, self.ret, self.glob = {}, {}, {}, {}
        self.changed = True
        self.report = False
        self.found, self.sites = [], 0
        self._shared = {}

    # ---------------------------------------------------------------- bookkeeping
    def up(self, table, key, tags):
        tags = frozenset(x for x in tags if x is not None)
        old = table.get(key, frozenset())
        if not tags <= old:
            table[key] = old | tags
            self.changed = True

    def bad(self, node, what):
        if self.report:
            x = (self.fn.qual, getattr(node, "lineno", 0), what)
            if x not in self.found:
                self.found.append(x)

    def kind(self, tags):
        """Resolve heap references."""
        out, todo, seen = set(), list(tags), set()
        while todo:
            t = todo.pop()
            if isinstance(t, tuple):
                if t not in seen:
                    seen.add(t)
                    todo.extend(self.heap.get(t, ()))
            else:
                out.add(t)
        return out

    def run(self):
        n = 0
        while self.changed and n < 12:
            self.changed = False
            n += 1
            for f in self.funcs:
                self.function(f)
        self.report = True
        for f in self.funcs:
            self.function(f)
        return self.found

    def function(self, f):
        self.fn = f
        env = {}
        for p, _, _ in f.params():
            t = self.param.get((f.qual, p), frozenset())
            if t:
                env[p] = t
        self.loops = []
        self.block(f.node.body, env)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def join(self, env, *envs):
        keys = set().union(*[set(e) for e in envs])
        env.clear()
        for k in keys:
            t = frozenset().union(*[e.get(k, frozenset()) for e in envs])
            if t:
                env[k] = t

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e2 = dict(env)
            self.block(st.body, e2)
        elif isinstance(st, ast.ClassDef):
            self.block(st.body, dict(env))
        elif isinstance(st, ast.Assign):
            t = self.ev(st.value, env)
            for x in st.targets:
                self.assign(x, t, st.value, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), st.value, env)
        elif isinstance(st, ast.AugAssign):
            t = self.ev(st.value, env)
            k = self.kind(t)
            if isinstance(st.target, ast.Name):
                old = env.get(st.target.id, frozenset())
                if "S" in self.kind(old):
                    t = frozenset(k - {"S", "U", "D"})
                elif "S" in k:
                    t = frozenset(k - {"S"} | {"U"})
                if old | t:
                    env[st.target.id] = old | t
                self.grown(st, env, st.target.id)
            else:
                if "S" in k:
                    t = frozenset(k - {"S"} | {"U"})
                self.assign(st.target, t, st.value, env, weak=True)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                t = self.ev(st.value, env)
                self.up(self.ret, self.fn.qual, t)
                if self.loops and not isinstance(st.value, ast.Constant):
                    self.bad(st, f"the loop over the set {self.loops[-1]} returns at the first element that fits")
        elif isinstance(st, ast.Break):
            pass
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.If):
            self.test(st, env)
            a, b = dict(env), dict(env)
            self.block(st.body, a)
            self.block(st.orelse, b)
            ends = (ast.Return, ast.Raise, ast.Continue, ast.Break)
            alive = [e for e, blk in ((a, st.body), (b, st.orelse)) if not (blk and isinstance(blk[-1], ends))]
            self.join(env, *(alive or [a, b]))
        elif isinstance(st, ast.While):
            self.test(st, env)
            for _ in range(2):
                a = dict(env)
                self.block(st.body, a)
                self.join(env, dict(env), a)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            t = self.ev(st.iter, env)
            k = self.kind(t)
            if k & {"S", "U", "D"}:
                self.sites += self.report
                self.loop(st, ast.unparse(st.iter), env)
            self.assign(st.target, self.elements(t), None, env)
            arbitrary = bool(k & {"S", "U", "D"})
            for _ in range(2):
                a = dict(env)
                if arbitrary:
                    self.loops.append(ast.unparse(st.iter))
                self.block(st.body, a)
                if arbitrary:
                    self.loops.pop()
                self.join(env, dict(env), a)
            self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                t = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, t, None, env)
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = dict(env)
            self.block(st.body, a)
            self.join(env, dict(env), a)
            outs = []
            for h in st.handlers:
                b = dict(env)
                self.block(h.body, b)
                outs.append(b)
            self.block(st.orelse, a)
            self.join(env, a, *outs)
            self.block(st.finalbody, env)
        elif isinstance(st, (ast.Assert,)):
            self.ev(st.test, env)
        elif isinstance(st, ast.Raise):
            for x in (st.exc, st.cause):
                if x is not None:
                    self.ev(x, env)
        elif isinstance(st, ast.Match):
            self.ev(st.subject, env)
            outs = [dict(env)]
            for c in st.cases:
                b = dict(env)
                self.block(c.body, b)
                outs.append(b)
            self.join(env, *outs)

    def harmless(self, body):
        for st in body:
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or isinstance(st.value, ast.Call)
                                             and name_of(st.value) in SHOW):
                continue
            return False
        return True

    def test(self, st, env):
        t = self.kind(self.ev(st.test, env))
        if t & {"N", "NU"} and not (isinstance(st, ast.If) and self.harmless(st.body) and self.harmless(st.orelse)):
            self.bad(st.test, f"the condition {ast.unparse(st.test)} depends on a value that differs between runs")

    def elements(self, t):
        """Tags of the elements of a collection."""
        out = set()
        for x in t:
            if isinstance(x, tuple):
                out.add((x[0], x[1] + 1))
            elif x in ("N", "NU"):
                out.add(x)
        return frozenset(out)

    def assign(self, target, t, value, env, weak=False):
        if isinstance(target, ast.Name):
            if t:
                env[target.id] = frozenset(t) | (env.get(target.id, frozenset()) if weak else frozenset())
            elif not weak:
                env.pop(target.id, None)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, t, None, env)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if value is not None and isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                for a, b in zip(target.elts, value.elts):
                    self.assign(a, self.ev(b, env), b, env)
                return
            if self.kind(t) & {"S", "U"} and len(target.elts) > 1:
                self.bad(target, f"{ast.unparse(value) if value is not None else 'a set'} is unpacked in arbitrary order")
            for a in target.elts:
                self.assign(a, self.elements(t), None, env)
        elif isinstance(target, ast.Attribute):
            self.ev(target.value, env)
            self.store((target.attr, 0), t, target)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, env)
            self.ev(target.slice, env)
            self.put(base, t, target)
            if self.loops:
                if isinstance(target.value, ast.Name):
                    env[target.value.id] = env.get(target.value.id, frozenset()) | {"D"}
                elif isinstance(target.value, ast.Attribute):
                    self.up(self.heap, (target.value.attr, 0), {"D"})

    def store(self, loc, t, node):
        if loc[0] in ("id", "_id"):
            t = frozenset(t) - {"NU"}
        if "S" in self.kind(t) or t:
            self.up(self.heap, loc, [x for x in t if x != loc])

    def put(self, base, t, node):
        """An element with tags t is placed in the containers `base`."""
        k = self.kind(t)
        for x in base:
            if isinstance(x, tuple):
                self.up(self.heap, (x[0], x[1] + 1), [y for y in t if y != (x[0], x[1] + 1)])
                if k & {"N", "NU"}:
                    self.bad(node, f"a value that differs between runs is recorded in {x[0]}")

    def grown(self, node, env, name):
        """A collection grows inside a loop over a set."""
        if self.loops:
            env[name] = env.get(name, frozenset()) | {"U"}

    # ---------------------------------------------------------------- loops over sets
    def loop(self, st, text, env):
        self.loop_body(st.body, text, {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)})
        for b in st.body:
            if isinstance(b, ast.Break):
                self.bad(b, f"the loop over the set {text} takes only its first element")

    def loop_body(self, body, text, own, depth=0):
        own = set(own)
        changed = True
        while changed:
            changed = False
            for n in walk_no_defs(body):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                        root(n.value) in own and n.targets[0].id not in own:
                    own.add(n.targets[0].id)
                    changed = True
        for n in walk_no_defs(body):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.bad(n, f"the loop over the set {text} waits for {ast.unparse(n)[:60]} for one element after the other")
            elif isinstance(n, ast.Call):
                self.call_in_loop(n, text, own, depth)
                if depth and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "extend") and isinstance(
                        n.func.value, ast.Attribute) and root(n.func.value) not in own:
                    self.up(self.heap, (n.func.value.attr, 0), {"U"})
            elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and root(t) not in own:
                        self.bad(n, f"the loop over the set {text} leaves {ast.unparse(t)} as the last element made it")
        for s in walk_no_defs(body):
            if isinstance(s, ast.If) and any(isinstance(b, ast.Break) for b in s.body):
                if any(isinstance(b, ast.Assign) and not isinstance(b.value, ast.Constant) for b in s.body):
                    self.bad(s, f"the loop over the set {text} stops at the first element that fits")

    def call_in_loop(self, n, text, own, depth):
        m = name_of(n)
        if m in SHOW:
            return
        if m in SCHEDULING and isinstance(n.func, ast.Attribute) and m not in ("put",):
            self.bad(n, f"the loop over the set {text} schedules {ast.unparse(n)[:60]} in arbitrary order")
            return
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and self.builtin(n.func.value.id):
            return
        for f in self.prog.named(self.fn.module, n.func, self.by_name.get(m, ())):
            if self.shared(f):
                self.bad(n, f"the loop over the set {text} calls {f.qual}, which schedules or waits, in arbitrary order")
                return
            if isinstance(n.func, ast.Attribute) and root(n.func.value) not in own and self.writes(f):
                if isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and depth < 3 and f.cls is not None and \
                        not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
                    # a method of the same object: its body judged as part of the loop
                    ps = [p for p, _, _ in f.params()][0 if f.is_static else 1:]
                    given = dict(zip(ps, n.args)) | {k.arg: k.value for k in n.keywords}
                    self.loop_body(f.node.body, text, {p for p, a in given.items() if root(a) in own}, depth + 1)
                    continue
                self.bad(n, f"the loop over the set {text} changes one object through {ast.unparse(n)[:60]} in arbitrary order")
                return

    def builtin(self, name):
        """Is the local variable only ever bound to a new builtin collection?"""
        if any(p == name for p, _, _ in self.fn.params()):
            return False
        vals = []
        for n in ast.walk(self.fn.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (
                ast.AnnAssign, ast.AugAssign, ast.For, ast.comprehension, ast.NamedExpr)) else []
            if isinstance(n, ast.withitem) and n.optional_vars is not None:
                ts = [n.optional_vars]
            for t in ts:
                if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                    vals.append(n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(t, ast.Name) else None)
        return bool(vals) and all(isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(
            v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set") for v in vals)

    def writes(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) == "self":
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") \
                    and root(n.func) == "self":
                return True
        return False

    def shared(self, f, depth=0):
        if f.qual in self._shared:
            return self._shared[f.qual]
        self._shared[f.qual] = False
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            elif isinstance(n, ast.Call):
                m = name_of(n)
                if m in ("put",) and not isinstance(n.func, ast.Attribute):
                    continue
                if m in SCHEDULING and isinstance(n.func, ast.Attribute):
                    r = True
                elif m not in SHOW and m not in ("get", "update", "items", "keys", "values", "append", "pop", "copy"):
                    if any(self.shared(g, depth + 1) for g in self.prog.named(f.module, n.func, self.by_name.get(m, ()))):
                        r = True
        self._shared[f.qual] = r
        return r

    # ---------------------------------------------------------------- expressions
    def ev(self, x, env):
        if x is None or isinstance(x, ast.Constant):
            return frozenset()
        if isinstance(x, ast.Name):
            r = env.get(x.id)
            if r is None and self.fn.module.symbols.get(x.id, ("",))[0] == "const":
                s = self.fn.module.symbols[x.id]
                if s[3] is not None and isinstance(s[3], (ast.Set, ast.SetComp)) and not small(s[3]):
                    return frozenset({"S"})
            return self.source(x, env) or r or frozenset()
        if isinstance(x, ast.Attribute):
            s = self.source(x, env)
            if s:
                return s
            b = self.ev(x.value, env)
            out = {(x.attr, 0)}
            if x.attr in self.props:
                for f in self.by_name.get(x.attr, ()):
                    out |= self.ret.get(f.qual, frozenset())
            if "NU" in b and x.attr in ("int", "bytes", "fields", "node", "time", "time_low", "clock_seq"):
                out.add("N")
            if "N" in b and x.attr not in ("id",):
                out.add("N")
            return frozenset(out)
        if isinstance(x, ast.Set):
            for e in x.elts:
                self.ev(e, env)
            return frozenset() if small(x) else frozenset({"S"})
        if isinstance(x, ast.SetComp):
            self.comp(x, env)
            return frozenset({"S"})
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            k, t = self.comp(x, env)
            return t | ({"U"} if k else set())
        if isinstance(x, ast.DictComp):
            k, t = self.comp(x, env)
            return t | ({"D"} if k else set())
        if isinstance(x, (ast.List, ast.Tuple)):
            out = set()
            for e in x.elts:
                t = self.ev(e.value if isinstance(e, ast.Starred) else e, env)
                k = self.kind(t)
                if isinstance(e, ast.Starred) and k & {"S", "U", "D"}:
                    out.add("U")
                out |= k & {"N", "NU"}
            return frozenset(out)
        if isinstance(x, ast.Dict):
            out = set()
            for k, v in zip(x.keys, x.values):
                t = self.kind(self.ev(v, env)) | (self.kind(self.ev(k, env)) if k is not None else set())
                out |= t & {"N", "NU"}
            return frozenset(out)
        if isinstance(x, ast.BinOp):
            a, b = self.ev(x.left, env), self.ev(x.right, env)
            k = self.kind(a) | self.kind(b)
            out = set(k & {"N", "NU", "U"})
            if isinstance(x.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)) and (
                    "S" in k or view(x.left) or view(x.right)):
                out.add("S")
            elif "S" in k and isinstance(x.op, ast.Add):
                out.add("U")
            return frozenset(out)
        if isinstance(x, ast.BoolOp):
            return frozenset().union(*[self.ev(v, env) for v in x.values])
        if isinstance(x, ast.UnaryOp):
            return frozenset(self.kind(self.ev(x.operand, env)) & {"N", "NU"})
        if isinstance(x, ast.Compare):
            out = set()
            for v in [x.left] + x.comparators:
                out |= self.kind(self.ev(v, env)) & {"N", "NU"}
            if any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in x.ops):
                if all(isinstance(v, ast.Attribute) and v.attr == "id" for v in [x.left] + x.comparators):
                    self.bad(x, f"{ast.unparse(x)} compares ids, which are random when left out")
            elif all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in x.ops):
                out -= {"NU"}
            elif all(isinstance(v, ast.Call) and name_of(v) == "id" for v in [x.left] + x.comparators):
                out = set()
            return frozenset(out)
        if isinstance(x, ast.IfExp):
            t = self.kind(self.ev(x.test, env)) & {"N", "NU"}
            return frozenset(t) | self.ev(x.body, env) | self.ev(x.orelse, env)
        if isinstance(x, ast.Subscript):
            b = self.ev(x.value, env)
            i = self.ev(x.slice, env)
            k = self.kind(b)
            if k & {"U"} and not isinstance(x.slice, ast.Slice) and isinstance(x.ctx, ast.Load):
                self.bad(x, f"{ast.unparse(x)} picks an element of a collection that is in the arbitrary order of a set")
            if k & {"U"} and isinstance(x.slice, ast.Slice):
                self.bad(x, f"{ast.unparse(x)} picks elements of a collection that is in the arbitrary order of a set")
            return self.elements(b) | (self.kind(i) & {"N"})
        if isinstance(x, ast.NamedExpr):
            t = self.ev(x.value, env)
            self.assign(x.target, t, x.value, env)
            return t
        if isinstance(x, (ast.Yield, ast.Await)):
            self.ev(x.value, env)
            return frozenset()
        if isinstance(x, ast.YieldFrom):
            t = self.ev(x.value, env)
            if self.kind(t) & {"S", "U", "D"}:
                self.bad(x, f"{ast.unparse(x)} waits in the arbitrary order of a set")
            return frozenset()
        if isinstance(x, ast.JoinedStr):
            out = set()
            for v in x.values:
                if isinstance(v, ast.FormattedValue):
                    out |= self.kind(self.ev(v.value, env)) & {"N", "NU"}
            return frozenset(out)
        if isinstance(x, ast.Lambda):
            self.ev(x.body, {k: v for k, v in env.items() if k not in {a.arg for a in x.args.args}})
            return frozenset()
        if isinstance(x, ast.Starred):
            return self.ev(x.value, env)
        if isinstance(x, ast.Slice):
            return frozenset()
        if isinstance(x, ast.Call):
            return self.call(x, env)
        out = set()
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.expr):
                out |= self.kind(self.ev(c, env)) & {"N", "NU"}
        return frozenset(out)

    def comp(self, x, env):
        e2, arbitrary = dict(env), None
        for g in x.generators:
            t = self.ev(g.iter, e2)
            if self.kind(t) & {"S", "U", "D"}:
                arbitrary = ast.unparse(g.iter)
                self.sites += self.report
            self.assign(g.target, self.elements(t), None, e2)
            for c in g.ifs:
                self.ev(c, e2)
        parts = [x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]
        out = frozenset()
        for p in parts:
            k = self.kind(self.ev(p, e2))
            out |= k & {"N", "NU"}
            if arbitrary:
                own = {n.id for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for n in walk_no_defs([p]):
                    if isinstance(n, ast.Call):
                        self.call_in_loop(n, arbitrary, own, 0)
        return arbitrary, out

    def source(self, x, env):
        """Values that differ between runs."""
        if isinstance(x, ast.Name) and x.id in env:
            return None
        r = self.prog.resolve_node(self.fn.module, x)
        if r is None or r[0] not in ("ext", "module"):
            return None
        q = r[1] if isinstance(r[1], str) else ""
        q = q.replace("np.", "numpy.") if q.startswith("np.") else q
        if q.startswith("uuid.uuid"):
            return frozenset({"NU"}) if q in ("uuid.uuid1", "uuid.uuid4") else None
        if any(q.startswith(p) for p in RANDOM) or q in CLOCKS or any(q.startswith(c + ".") for c in CLOCKS):
            return frozenset({"N"})
        return None

    def call(self, x, env):
        m = name_of(x)
        base = self.ev(x.func.value, env) if isinstance(x.func, ast.Attribute) else frozenset()
        args = [(None, a) for a in x.args] + [(k.arg or "**", k.value) for k in x.keywords]
        tags = [(k, self.ev(a, env), a) for k, a in args]
        kinds = [self.kind(t) for _, t, _ in tags]
        allk = set().union(*kinds) if kinds else set()
        bk = self.kind(base)
        src = self.source(x.func, env) or frozenset()
        if isinstance(x.func, ast.Name) and x.func.id in ("id", "hash") and x.func.id not in env and len(x.args) == 1:
            src = frozenset({"N"})
        if isinstance(x.func, ast.Name) and x.func.id == "open" and "open" not in env:
            src = frozenset({"N"})
        if isinstance(x.func, ast.Name) and x.func.id in env and self.kind(env[x.func.id]) & {"N", "NU"}:
            src = frozenset(self.kind(env[x.func.id]) & {"N", "NU"})
        if m in ("now", "today", "utcnow") and isinstance(x.func, ast.Attribute) and not x.args:
            src = src or frozenset({"N"}) if root(x.func) != "self" and "env" not in ast.unparse(x.func) else src
        if m in SHOW:
            return frozenset()
        noise = allk & {"N", "NU"}
        # ordering keys
        if m in ("sorted", "sort", "min", "max", "sort_values", "nsmallest", "nlargest"):
            for k, t, a in tags:
                if k == "key" and idkey(a):
                    self.bad(x, f"{ast.unparse(x)[:80]} orders by id, which is random when left out or differs between runs")
        if m in ("sorted", "sort") and not any(k == "key" for k, _, _ in tags):
            what = list(x.args)
            if m == "sort" and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                what = [n.value for n in ast.walk(self.fn.node) if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == x.func.value.id for t in n.targets)]
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash")
                   for w in what for n in ast.walk(w)):
                self.bad(x, f"{ast.unparse(x)[:80]} orders by a value that differs between runs")
        if m in ("shuffle", "permutation") and "N" in src:
            self.bad(x, f"{ast.unparse(x)[:80]} brings into random order")
        if m == "sorted" or m == "sort":
            if m == "sort" and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                env[x.func.value.id] = frozenset(bk - {"U", "D"})
            return frozenset(noise)
        if isinstance(x.func, ast.Attribute) and m in SCHED and noise:
            self.bad(x, f"{ast.unparse(x)[:80]} schedules with a value that differs between runs")
        if m in ("set", "frozenset") and isinstance(x.func, ast.Name):
            if not x.args or not deterministic(x.args[0]):
                return frozenset({"S"} | noise)
            return frozenset()
        if m == "next":
            if tags and kinds[0] & {"S", "U", "D"}:
                self.bad(x, f"{ast.unparse(x)[:80]} picks an element of a set")
            return self.elements(tags[0][1]) if tags else frozenset()
        if m in ("min", "max") and tags and not isinstance(x.func, ast.Attribute):
            return self.elements(tags[0][1]) | noise
        if isinstance(x.func, ast.Attribute):
            if m == "pop" and "S" in bk and not x.args and "U" not in bk:
                self.bad(x, f"{ast.unparse(x)[:80]} picks an element of a set")
            if m in ("pop", "popleft", "popitem") and bk & {"U"} or m == "popitem" and "D" in bk:
                self.bad(x, f"{ast.unparse(x)[:80]} picks an element of a collection in the arbitrary order of a set")
            if m in ("get", "pop", "setdefault"):
                out = self.elements(base)
                if len(tags) > 1:
                    out |= tags[1][1]
                    if m == "setdefault":
                        self.put(base, tags[1][1], x)
                if m == "get" and "S" not in bk or m != "get":
                    if not self.by_name.get(m) or base:
                        return out
            if m in ("values", "items", "keys"):
                return self.elements(base) | base if False else frozenset(
                    [y if isinstance(y, tuple) else y for y in base if isinstance(y, tuple)]
                    + (["U"] if bk & {"D"} else []))
            if m in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                return base | ({"S"} if bk & {"S"} or (m != "copy" and not self.by_name.get(m)) else set())
            if m in ("append", "insert", "add", "appendleft", "extend", "update"):
                el = frozenset(self.kind(tags[-1][1])) if tags else frozenset()
                grown = set()
                if m in ("extend", "update") and el & {"S", "U", "D"}:
                    grown.add("U" if m == "extend" else "D")
                if self.loops and m in ("append", "insert", "appendleft", "extend"):
                    grown.add("U")
                if isinstance(x.func.value, ast.Name):
                    v = x.func.value.id
                    if "S" in bk:
                        grown = set()
                    nt = env.get(v, frozenset()) | grown | (el & {"N", "NU"})
                    if nt:
                        env[v] = nt
                else:
                    for y in base:
                        if isinstance(y, tuple) and "S" not in bk:
                            # (a logbook belongs to one object: entries appended to the loop's own element are judged there)
                            self.up(self.heap, y, grown - {y})
                if noise:
                    self.put(base, frozenset(noise), x)
                if m in ("append", "insert", "add", "appendleft"):
                    for y in base:
                        if isinstance(y, tuple) and tags:
                            self.up(self.heap, (y[0], y[1] + 1), [z for z in tags[-1][1] if z != (y[0], y[1] + 1)])
                return frozenset()
        # library functions
        fs = self.prog.named(self.fn.module, x.func, self.by_name.get(m, ()))
        out = set()
        for f in fs:
            ps = [n for n, _, k in f.params() if k == "pos"]
            off = 1 if (f.cls is not None and not f.is_static) else 0
            for i, (k, t, a) in enumerate(tags):
                name = k if k is not None else (ps[i + off] if i + off < len(ps) and not isinstance(a, ast.Starred) else None)
                keep = frozenset(self.kind(t))
                if name and keep:
                    self.up(self.param, (f.qual, name), keep)
            if m[:1].islower() or m == "__init__":
                out |= self.ret.get(f.qual, frozenset())
        if fs:
            return frozenset(out) | src
        if m in ORDERED and allk & {"S", "U", "D"}:
            return frozenset({"U"} | noise) | frozenset().union(*[self.elements(t) for _, t, _ in tags])
        if m in ORDERED and isinstance(x.func, ast.Name):
            return frozenset(noise | (allk & {"U"})) | frozenset().union(*[t for _, t, _ in tags]) if tags else frozenset()
        if m in ANY_ORDER:
            return frozenset(noise)
        # unknown function of a set: the result may be in its order
        return frozenset(noise | ({"U"} if allk & {"U"} and m not in PURE else set())) | src | frozenset(bk & {"N"})


def name_of(x):
    f = x.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"


def root(x):
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        x = x.func if isinstance(x, ast.Call) else x.value
    return x.id if isinstance(x, ast.Name) else None


def view(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args


def small(x):
    return isinstance(x, ast.Set) and not any(isinstance(e, ast.Starred) for e in x.elts) and (len(x.elts) <= 1 or all(
        isinstance(e, ast.Constant) and isinstance(e.value, (int, bool, type(None))) for e in x.elts))


def deterministic(x):
    if isinstance(x, ast.Call) and name_of(x) == "range":
        return True
    return isinstance(x, (ast.List, ast.Tuple)) and (
        len(x.elts) <= 1 and not any(isinstance(e, ast.Starred) for e in x.elts)
        or all(isinstance(e, ast.Constant) and isinstance(e.value, int) for e in x.elts))


def idkey(a):
    if isinstance(a, ast.Name):
        return a.id in ("id", "hash")
    if isinstance(a, ast.Call) and name_of(a) == "attrgetter":
        return any(isinstance(y, ast.Constant) and y.value == "id" for y in a.args)
    if isinstance(a, ast.Lambda):
        b = a.body
        es = b.elts if isinstance(b, ast.Tuple) else [b]
        for e in es:
            while isinstance(e, ast.Call) and name_of(e) in ("str", "repr", "int", "lower", "casefold") and (
                    e.args or isinstance(e.func, ast.Attribute)):
                e = e.args[0] if e.args else e.func.value
            if isinstance(e, ast.Attribute) and e.attr == "id" or isinstance(e, ast.Call) and name_of(e) in ("id", "hash"):
                return True
            if isinstance(e, ast.Attribute) and e.attr == "name":
                return False
    return False


def walk_no_defs(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def run(ck):
    it = Interp(ck.prog)
    if len(it.funcs) < 60:
        raise AnalysisBroken(f"only {len(it.funcs)} functions of the simulation packages found")
    found = it.run()
    mods = sorted({f.module.name for f in it.funcs})
    for m in mods:
        fs = [f for f in it.funcs if f.module.name == m]

        def go(m=m, fs=fs):
            quals = {f.qual for f in fs}
            for q in quals:
                ck.funcs.add(q)
            mine = [x for x in found if x[0] in quals]
            if mine:
                q, line, what = mine[0]
                fail(f"{q} (line {line}): {what}")
        ck.ob("R26.1 nothing that differs between runs, and no order of a set, reaches the simulation", m, go)
    return it.sites
