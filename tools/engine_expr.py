"""Expressions, calls, conditions and collections of the abstract interpreter."""

import ast

import terms as T
from model import Func, mangle

ENV = ("env",)

# pure builtins kept as value terms
PURE_BUILTINS = {"abs", "round", "str", "int", "float", "bool", "repr", "id", "hash", "type", "pow", "divmod",
                 "ord", "chr", "format", "callable", "issubclass", "vars", "dir"}
EXC_BUILTINS = {"Exception", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "AssertionError",
                "AttributeError", "NotImplementedError", "StopIteration", "LookupError", "BaseException",
                "DeprecationWarning", "UserWarning", "Warning", "FutureWarning"}
TYPES = {"list", "dict", "set", "tuple", "str", "int", "float", "bool", "object", "frozenset"}
BUILTINS = PURE_BUILTINS | EXC_BUILTINS | TYPES | {
    "len", "min", "max", "sum", "sorted", "any", "all", "isinstance", "hasattr", "getattr", "setattr", "range",
    "enumerate", "zip", "map", "filter", "reversed", "iter", "next", "print", "super", "property", "staticmethod",
    "delattr", "open", "input", "globals", "locals", "eval", "exec", "memoryview", "bytes", "NotImplemented",
    "Ellipsis", "slice", "complex", "__import__", "classmethod", "__name__", "__file__"}

SIMPY_SIGS = {
    "timeout": ["delay", "value"], "process": ["generator"], "all_of": ["events"], "any_of": ["events"],
    "event": [], "request": [], "release": ["request"], "succeed": ["value"], "fail": ["exception"],
    "trigger": ["event"], "run": ["until"], "step": [], "schedule": ["event", "priority", "delay"],
    "interrupt": ["cause"],
}
SIMPY_DEFAULTS = {"timeout": {"value": T.NONE}, "succeed": {"value": T.NONE}}
SIMPY_EFFECTS = {"timeout", "process", "all_of", "any_of", "event", "request", "release", "succeed", "fail",
                 "trigger", "run", "step", "schedule", "interrupt"}
OBSERVERS = {"get_level", "get_capacity", "is_at", "get_state"}
MUTATORS = {"append", "extend", "add", "update", "setdefault", "pop", "remove", "clear", "insert", "sort", "reverse",
            "discard", "popitem", "__setitem__", "__delitem__", "appendleft", "put_nowait"}
PURE_METHODS = {"items", "keys", "values", "copy", "get", "join", "format", "endswith", "startswith", "split",
                "strip", "lower", "upper", "replace", "index", "count", "union", "difference", "intersection",
                "issubset", "total_seconds", "mean", "tolist", "isdisjoint"}
NOOP_MODULES = ("logging.", "warnings.", "pprint.", "traceback.", "typing.")
CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
CONTRA = [frozenset({"list", "dict", "str", "simpy.Event", "set", "tuple", "int", "float"})]


class ExprMixin:
    VOLATILE = {"geometry", "node", "items", "processed", "triggered", "callbacks", "value", "_queue", "logbook",
                "_container_events", "users", "queue", "_value", "ok", "is_alive", "main_process"}
    HEAP_OBJ_ATTRS = set()

    # -------------------------------------------------------------- helpers
    def canon(self, t):
        return self.alias.get(t, t) if isinstance(t, tuple) else t

    def evs(self, exprs, st, ctx):
        res = [((), st)]
        for e in exprs:
            res = [(vs + (v,), z) for vs, y in res for v, z in self.ev(e, y, ctx)]
        return res

    def ev(self, e, st, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknowns.append((self.where(ctx, e), type(e).__name__))
            return [(("unk", self.site(ctx, e)), st)]
        return m(e, st, ctx)

    def alloc(self, kind, segs, st, ctx, node, extra=""):
        r = self.site(ctx, node, "o" + extra + self.unrolled)
        st.objs[r] = (kind, tuple(segs))
        return ("ref", r)

    def deref(self, v, st):
        """(kind, segs) of a collection value or None."""
        if isinstance(v, tuple) and v:
            if v[0] == "ref":
                return st.objs.get(v[1])
            if v[0] in ("list", "tuple", "set", "dict"):
                return (v[0], v[1])
        return None

    def is_listy(self, v, st):
        d = self.deref(v, st)
        return d is not None and d[0] == "list" and v[0] == "ref"

    # -------------------------------------------------------------- literals
    def e_Constant(self, e, st, ctx):
        return [(T.const(e.value), st)]

    def e_Name(self, e, st, ctx):
        return [(self.lookup(e.id, st, ctx, e), st)]

    def lookup(self, name, st, ctx, node):
        func, frame = ctx
        f = frame
        fn = func
        while True:
            if (f, name) in st.env:
                return self.canon(st.env[(f, name)])
            par = getattr(fn, "closure_ctx", None)
            if par is None:
                break
            fn, f = par
        r = self.prog.resolve_name(func.module, name)
        if r is not None:
            return self.symbol(r, st, ctx)
        if name in BUILTINS:
            return ("builtin", name)
        return ("global", name)

    def symbol(self, r, st, ctx):
        if r[0] in ("class", "func", "ext", "module"):
            if r[0] == "ext" and r[1] in ("numbers.Number",):
                return ("ext", r[1])
            return (r[0], r[1])
        if r[0] == "const":
            _, mod, name, val = r
            if (mod, name) in self.prog.rewritten()[1]:
                return ("global", f"{mod}.{name}")
            if isinstance(val, ast.Constant):
                return T.const(val.value)
            v = self.prog.fold(self.prog.modules[mod], val)
            if v is not None:
                return T.const(v)
            if isinstance(val, (ast.Tuple, ast.List, ast.Dict, ast.Set)):
                m = self.prog.modules[mod]
                v, s2 = self.ev(val, st.copy(), (Func(f"{mod}.<module>", _FakeFn(val), m), (None, mod)))[0]
                return self.snap(v, s2)
            return ("global", f"{mod}.{name}")
        return ("global", str(r))

    def e_NamedExpr(self, e, st, ctx):
        out = []
        for v, y in self.ev(e.value, st, ctx):
            for z in self.assign(e.target, v, y, ctx):
                out.append((v, z))
        return out

    def e_JoinedStr(self, e, st, ctx):
        res = [((), st)]
        for p in e.values:
            nxt = []
            for parts, y in res:
                if isinstance(p, ast.Constant):
                    nxt.append((parts + (T.const(p.value),), y))
                else:
                    for v, z in self.ev(p.value, y, ctx):
                        nxt.append((parts + (self.snap(v, z),), z))
            res = nxt
        return [(self.concat(parts), y) for parts, y in res]

    def concat(self, parts):
        flat = []
        for p in parts:
            if p[0] == "fstr":
                flat.extend(p[1])
            elif p[0] == "call" and p[1] == "str" and len(p[2]) == 1:
                flat.append(p[2][0])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if p[0] == "num" and p[1].denominator == 1:
                p = ("str", str(p[1]))
            if p[0] == "str" and out and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + p[1])
            elif p == ("str", ""):
                continue
            else:
                out.append(p)
        if not out:
            return ("str", "")
        if len(out) == 1 and out[0][0] == "str":
            return out[0]
        return ("fstr", tuple(out))

    def e_FormattedValue(self, e, st, ctx):
        return [(self.concat((v,)), y) for v, y in self.ev(e.value, st, ctx)]

    def seq_literal(self, elts, st, ctx):
        res = [((), st)]
        for x in elts:
            nxt = []
            for segs, y in res:
                if isinstance(x, ast.Starred):
                    for v, z in self.ev(x.value, y, ctx):
                        nxt.append((segs + self.as_segs(v, z), z))
                else:
                    for v, z in self.ev(x, y, ctx):
                        nxt.append((segs + (("item", v),), z))
            res = nxt
        return res

    def e_List(self, e, st, ctx):
        return [(self.alloc("list", segs, y, ctx, e), y) for segs, y in self.seq_literal(e.elts, st, ctx)]

    def e_Tuple(self, e, st, ctx):
        return [(("tuple", segs), y) for segs, y in self.seq_literal(e.elts, st, ctx)]

    def e_Set(self, e, st, ctx):
        return [(self.alloc("set", self.dedup(segs, y), y, ctx, e), y) for segs, y in self.seq_literal(e.elts, st, ctx)]

    def dedup(self, segs, st):
        out = []
        for s in segs:
            if s not in out:
                out.append(s)
        return tuple(out)

    def e_Dict(self, e, st, ctx):
        res = [((), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for segs, y in res:
                if k is None:
                    for w, z in self.ev(v, y, ctx):
                        d = self.deref(w, z)
                        if d is not None and d[0] == "dict":
                            s2 = segs
                            for s in d[1]:
                                s2 = self.dict_set(s2, s[1], s[2]) if s[0] == "kv" else s2 + (s,)
                            nxt.append((s2, z))
                        else:
                            nxt.append((segs + (("splat", w),), z))
                else:
                    for kk, z in self.ev(k, y, ctx):
                        for w, q in self.ev(v, z, ctx):
                            nxt.append((self.dict_set(segs, self.snap(kk, q), w), q))
            res = nxt
        return [(self.alloc("dict", segs, y, ctx, e), y) for segs, y in res]

    def dict_set(self, segs, k, v):
        out = [s for s in segs if not (s[0] == "kv" and s[1] == k)]
        out.append(("kv", k, v))
        if all(s[0] == "kv" for s in out):
            out.sort(key=lambda s: T.tkey(s[1]))
        return tuple(out)

    def e_Lambda(self, e, st, ctx):
        f = Func(f"{ctx[0].qual}.<lambda:{e.lineno}.{e.col_offset}>", e, ctx[0].module, ctx[0].cls)
        return [(self.make_closure(f, ctx, st), st)]

    def make_closure(self, f, ctx, st):
        cid = f"{f.qual}@{getattr(f.node, 'lineno', 0)}#{self.frame_id(ctx[1])}"
        f.closure_ctx = ctx
        # default values are evaluated now
        dv = []
        for n, d, kind in f.params():
            if d is not None:
                dv.append((n, self.ev(d, st, ctx)[0][0]))
        self.closures[cid] = f
        return ("closure", cid, tuple(dv))

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Await(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    # -------------------------------------------------------------- operators
    def e_BinOp(self, e, st, ctx):
        out = []
        for (a, b), y in self.evs([e.left, e.right], st, ctx):
            if isinstance(e.op, ast.Add):
                da, db = self.deref(a, y), self.deref(b, y)
                if da and db and da[0] in ("list", "tuple"):
                    segs = da[1] + db[1]
                    out.append((("tuple", segs) if da[0] == "tuple" else self.alloc("list", segs, y, ctx, e), y))
                    continue
                if (da and da[0] == "list") or (db and db[0] == "list"):
                    segs = self.as_segs(a, y) + self.as_segs(b, y)
                    out.append((self.alloc("list", segs, y, ctx, e), y))
                    continue
            if isinstance(e.op, ast.Mult):
                da, db = self.deref(a, y), self.deref(b, y)
                d, n = (da, b) if da else (db, a)
                if d and d[0] == "list":
                    if n[0] == "num" and 0 <= n[1] < 8:
                        out.append((self.alloc("list", d[1] * int(n[1]), y, ctx, e), y))
                    elif n[0] == "len" and len(d[1]) == 1 and d[1][0][0] == "item":
                        out.append((self.alloc("list", (("each", n[1], d[1][0], ()),), y, ctx, e), y))
                    else:
                        out.append((self.alloc("list", (("times", n, d[1]),), y, ctx, e), y))
                    continue
            if isinstance(e.op, ast.BitOr):
                da, db = self.deref(a, y), self.deref(b, y)
                if da and db and da[0] == db[0] == "dict":
                    segs = da[1]
                    for s in db[1]:
                        segs = self.dict_set(segs, s[1], s[2]) if s[0] == "kv" else segs + (s,)
                    out.append((self.alloc("dict", segs, y, ctx, e), y))
                    continue
            out.append((self.binop(e.op, self.snap(a, y), self.snap(b, y), y), y))
        return out

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if self.stringy(a) or self.stringy(b):
                return self.concat((a, b))
            if a[0] in ("ref", "list", "tuple") or b[0] in ("ref", "list", "tuple"):
                return ("op", "Add", a, b)
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow) and b[0] == "num" and b[1].denominator == 1 and abs(b[1]) <= 12:
            return T.power(a, int(b[1]))
        if isinstance(op, ast.Mod) and self.stringy(a) and a[0] == "str":
            items = [s[1] for s in b[1]] if b[0] == "tuple" else [b]
            parts = a[1].replace("%d", "%s").split("%s")
            if len(parts) == len(items) + 1:
                seq = [("str", parts[0])]
                for x, p in zip(items, parts[1:]):
                    seq += [x, ("str", p)]
                return self.concat(tuple(seq))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and not isinstance(op, ast.BitXor):
            x, y = sorted((a, b), key=T.tkey)
            return ("op", type(op).__name__, x, y)
        return ("op", type(op).__name__, a, b)

    def stringy(self, t):
        return t[0] in ("str", "fstr") or (t[0] == "call" and t[1] == "str")

    def e_UnaryOp(self, e, st, ctx):
        out = []
        if isinstance(e.op, ast.Not):
            for v, y in self.ev(e.operand, st, ctx):
                out.append((T.bnot(self.truth(v, y)), y))
            return out
        for v, y in self.ev(e.operand, st, ctx):
            if isinstance(e.op, ast.USub):
                out.append((T.neg(v), y))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, y))
            elif v[0] in T.ATOM_OPS or v[0] == "not":
                out.append((T.bnot(v), y))
            else:
                out.append((("op", "Invert", self.snap(v, y)), y))
        return out

    def e_BoolOp(self, e, st, ctx):
        """Value of and/or: forks on the truth of the operands."""
        out = []
        pend = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in pend:
                for v, y in self.ev(x, s, ctx):
                    if i == len(e.values) - 1:
                        out.append((v, y))
                        continue
                    for b, z in self.fork(self.truth(v, y), y, ctx, x):
                        stop = (not b) if isinstance(e.op, ast.And) else b
                        if stop:
                            boolean = self.truth(v, z) == v or v[0] in ("not",) or v[0] in T.ATOM_OPS
                            out.append((("bool", b) if boolean else v, z))
                        else:
                            nxt.append(z)
            pend = nxt
        return out

    def e_IfExp(self, e, st, ctx):
        out = []
        for b, y in self.cond(e.test, st, ctx):
            out.extend(self.ev(e.body if b else e.orelse, y, ctx))
        return out

    def e_Compare(self, e, st, ctx):
        out = []
        for vals, y in self.evs([e.left] + e.comparators, st, ctx):
            atoms = []
            for a, op, b in zip(vals, e.ops, vals[1:]):
                atoms.append(self.compare(op, a, b, y))
            if len(atoms) == 1:
                out.append((atoms[0], y))
            else:
                # chained comparison: fork
                pend = [y]
                for i, at in enumerate(atoms):
                    nxt = []
                    for s in pend:
                        for b, z in self.fork(at, s, ctx, e):
                            if not b:
                                out.append((T.FALSE, z))
                            else:
                                nxt.append(z)
                    pend = nxt
                out.extend((T.TRUE, z) for z in pend)
        return out

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            at = self.in_atom(a, b, st)
            return at if isinstance(op, ast.In) else T.bnot(at)
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            at = self.eq_atom(a, b, st)
            return at if isinstance(op, (ast.Is, ast.Eq)) else T.bnot(at)
        a, b = self.snap(a, st), self.snap(b, st)
        return self.order_atom(CMP[type(op)], a, b)

    def order_atom(self, o, a, b):
        if o == "lt":
            return T.lt(a, b)
        if o == "le":
            return T.le(a, b)
        if o == "gt":
            return T.lt(b, a)
        if o == "ge":
            return T.le(b, a)
        if o == "eq":
            return T.eq(a, b)
        return T.bnot(T.eq(a, b))

    def eq_atom(self, a, b, st):
        a, b = self.snap(a, st), self.snap(b, st)
        # type(x) == T is an instance check
        for x, c in ((a, b), (b, a)):
            if x[0] == "call" and x[1] == "type" and len(x[2]) == 1 and c[0] in ("builtin", "class", "ext"):
                return self.isinstance_atom(x[2][0], c, st)
        for x, c in ((a, b), (b, a)):
            if c == T.TRUE:
                return self.truth(x, st)
            if c == T.FALSE:
                return T.bnot(self.truth(x, st))
        # x == [] is "x is empty"
        for x, c in ((a, b), (b, a)):
            if c[0] in ("list", "dict", "set") and c[1] == () and x[0] not in ("list", "dict", "set"):
                return ("eq", ) + tuple(sorted((x, c), key=T.tkey))
        if a[0] in ("list", "dict") and b[0] in ("list", "dict") and a != b:
            for x, c in ((a, b), (b, a)):
                if c[1] == ():
                    return T.bnot(T.truth(x)) if x[0] == c[0] else T.FALSE
        if a == ("self_none",) or b == ("self_none",):
            return T.FALSE
        return T.eq(a, b)

    def in_atom(self, k, d, st):
        k = self.snap(k, st)
        c = self.deref(d, st)
        if c is not None:
            c = (c[0], tuple(self.snap_seg(s, st) for s in c[1]))
            if c[0] == "dict":
                if any(s[0] == "kv" and s[1] == k for s in c[1]):
                    return T.TRUE
                if all(s[0] == "kv" for s in c[1]):
                    if T.is_const(k) and all(T.is_const(s[1]) for s in c[1]):
                        return T.FALSE
                    if not c[1]:
                        return T.FALSE
                return ("in", k, (c[0], c[1]))
            return self.in_segs(k, c[1])
        d = self.snap(d, st)
        if d[0] == "dkeys":
            d = d[1]
        if d[0] == "attr" and d[2] == "container_list":
            pass
        return ("in", k, d)

    def in_segs(self, k, segs):
        if not segs:
            return T.FALSE
        atoms = []
        for s in segs:
            if s[0] == "item":
                atoms.append(T.eq(k, s[1]))
            elif s[0] == "splat":
                atoms.append(("in", k, s[1]))
            elif s[0] == "each" and s[2][0] == "item":
                at = T.eq(s[2][1], k)
                conds = [c for c in s[3]]
                at = at if not conds else ("conj", tuple(sorted(conds + [at], key=T.tkey)))
                atoms.append(("exists", s[1], at))
            else:
                atoms.append(("in", k, ("list", (s,))))
        if T.TRUE in atoms:
            return T.TRUE
        atoms = [a for a in atoms if a != T.FALSE]
        if not atoms:
            return T.FALSE
        if len(atoms) == 1:
            return atoms[0]
        return ("disj", tuple(atoms))

    # -------------------------------------------------------------- conditions
    def truth(self, v, st):
        if isinstance(v, tuple) and v[0] in ("disj", "conj", "exists"):
            return v
        if isinstance(v, tuple) and v[0] == "ref":
            return T.truth(self.snap(v, st))
        d = T.truth(v)
        return d

    def cond(self, e, st, ctx):
        """[(bool, state)]"""
        if isinstance(e, ast.BoolOp):
            out, pend = [], [st]
            isand = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nxt = []
                for s in pend:
                    for b, y in self.cond(x, s, ctx):
                        if b != isand:
                            out.append((b, y))
                        else:
                            nxt.append(y)
                pend = nxt
            return out + [(isand, s) for s in pend]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, y) for b, y in self.cond(e.operand, st, ctx)]
        if isinstance(e, ast.IfExp):
            out = []
            for b, y in self.cond(e.test, st, ctx):
                out.extend(self.cond(e.body if b else e.orelse, y, ctx))
            return out
        out = []
        for v, y in self.ev(e, st, ctx):
            out.extend(self.fork(self.truth(v, y), y, ctx, e))
        return out

    def fork(self, atom, st, ctx, node):
        if atom[0] == "not":
            return [(not b, y) for b, y in self.fork(atom[1], st, ctx, node)]
        if atom[0] in ("disj", "conj"):
            out, pend = [], [st]
            stop = atom[0] == "disj"
            for a in atom[1]:
                nxt = []
                for s in pend:
                    for b, y in self.fork(a, s, ctx, node):
                        if b == stop:
                            out.append((b, y))
                        else:
                            nxt.append(y)
                pend = nxt
            return out + [(not stop, s) for s in pend]
        if atom[0] == "iff":
            return [(x == z, w) for x, y in self.fork(atom[1], st, ctx, node)
                    for z, w in self.fork(atom[2], y, ctx, node)]
        d = self.decide(atom, st)
        if d is not None:
            return [(d, st)]
        res = []
        for b in (True, False):
            y = st.copy()
            y2 = self.assume(atom, b, y)
            if y2 is not None:
                self.emit(y2, self.mk("assume", None, atom, ctx, node, y2, ("bool", b)))
                res.append((b, y2))
        return res

    def mk(self, kind, name, recv, ctx, node, st, val=None, args=None, res=None, func=None):
        from engine import Eff

        return Eff(kind, name, recv, args, res, self.site(ctx, node), self.where(ctx, node), st, val, func)

    def decide(self, atom, st):
        if atom[0] == "bool":
            return atom[1]
        if atom[0] == "not":
            d = self.decide(atom[1], st)
            return None if d is None else not d
        if atom in st.facts:
            return st.facts[atom]
        o = atom[0]
        if o in ("lt0", "eq0"):
            return self.decide_arith(atom, st)
        if o == "isinstance":
            return self.decide_isinstance(atom, st)
        if o == "eq":
            a, b = atom[1], atom[2]
            # objects of different origin are different when the configuration says so
            if self.distinct(a, b):
                return False
            for x, c in ((a, b), (b, a)):
                if T.is_const(c):
                    for f, v in st.facts.items():
                        if v and f[0] == "eq" and x in (f[1], f[2]):
                            other = f[2] if f[1] == x else f[1]
                            if T.is_const(other):
                                return other == c
            for x, c in ((a, b), (b, a)):
                if c[0] in ("list", "dict", "set") and c[1] == ():
                    if st.facts.get(T.truth(x)) is True:
                        return False
        if o == "truth":
            x = atom[1]
            if st.facts.get(("isnone", x)) is True:
                return False
            if x[0] == "key" and x[1][0] == "at" or x[0] == "at":
                return None
            if x[0] in ("res",) and x[2] in ("event", "timeout", "request", "process"):
                return True
            if x[0] not in ("str", "num", "poly"):
                nz = self.decide_arith(("lt0", T.neg(("len", x))), st, False)
                if nz is not None:
                    return nz
            for f, v in st.facts.items():
                if v and f[0] == "eq" and x in (f[1], f[2]):
                    other = f[2] if f[1] == x else f[1]
                    if other[0] in ("list", "dict", "set") and other[1] == ():
                        return False
                    if T.is_const(other):
                        return self.decide(T.truth(other), st)
        if o == "isnone":
            x = atom[1]
            if st.facts.get(("truth", x)) is True:
                return False
            if x[0] == "res" and x[2] in ("event", "timeout", "request", "process", "all_of", "any_of"):
                return False
            # sub-processes are activities; an attribute that is there and holds a method is not None
            if x[0] == "at" and x[1][0] == "attr" and x[1][2] == "sub_processes":
                return False
            if x[0] == "attr" and st.facts.get(("hasattr", x[1], x[2])) is True and x[2] in self.prog.method_names():
                return False
            for f, v in st.facts.items():
                if v and f[0] in ("isinstance", "in") and f[1] == x and f[0] == "isinstance":
                    return False
                if v and f[0] == "eq" and x in (f[1], f[2]):
                    other = f[2] if f[1] == x else f[1]
                    if other[0] in T.NOT_NONE:
                        return False
        if o == "in":
            k, d = atom[1], atom[2]
            it = st.items.get((d, k))
            if it is not None:
                return it != ("absent",)
            if d[0] == "dkeys":
                return self.decide(("in", k, d[1]), st)
        if o == "exists":
            X, a = atom[1], atom[2]
            if st.facts.get(T.truth(X)) is False:
                return False
            if X[0] in ("list", "tuple", "set") and not X[1]:
                return False
            # a known element satisfying it
            for f, v in st.facts.items():
                if v and T.mentions(f, X):
                    for t in _ats(f, X):
                        if T.bind(f, t) == a:
                            return True
            na = T.bnot(a)
            for f, v in st.facts.items():
                if not v and na[0] != "not" and T.mentions(f, X):
                    for t in _ats(f, X):
                        if T.bind(f, t) == na:
                            return True
        if o == "hasattr":
            if (atom[1], atom[2]) in st.heap:
                return st.heap[(atom[1], atom[2])] != ("deleted",)
        return None

    def distinct(self, a, b):
        """Are two terms known to denote different objects?"""
        f = getattr(self, "distinct_fn", None)
        return bool(f and f(a, b))

    def decide_arith(self, atom, st, links=True):
        """Difference reasoning: facts about the same polynomial up to a constant."""
        p = T.to_poly(atom[1])
        c0 = p.pop((), 0)
        pk = frozenset(p.items())
        nk = frozenset((m, -c) for m, c in p.items())
        lo, hi = None, None   # bounds (value, strict) of the non-constant part q of p = q + c0
        eqv, neq = None, set()

        def low(v, s):
            nonlocal lo
            if lo is None or v > lo[0] or (v == lo[0] and s):
                lo = (v, s)

        def high(v, s):
            nonlocal hi
            if hi is None or v < hi[0] or (v == hi[0] and s):
                hi = (v, s)

        def scaled(fp):
            """fp = k*q + c -> (k, c) or None"""
            c = fp.get((), 0)
            rest = {m: x for m, x in fp.items() if m != ()}
            if set(rest) != set(p) or not rest:
                return None
            ks = {rest[m] / p[m] for m in rest}
            if len(ks) != 1:
                return None
            return ks.pop(), c

        for f, v in st.facts.items():
            if f[0] not in ("lt0", "eq0"):
                continue
            r = scaled(T.to_poly(f[1]))
            if r is None:
                continue
            k, c = r
            b = -c / k
            if f[0] == "eq0":
                if v:
                    eqv = b
                else:
                    neq.add(b)
            elif v:       # k*q + c < 0
                high(b, True) if k > 0 else low(b, True)
            else:         # k*q + c >= 0
                low(b, False) if k > 0 else high(b, False)
        # lengths and loop counters are non-negative
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("len", "it"):
                if c > 0:
                    low(0, False)
                else:
                    high(0, False)
                if m[0][0][0] == "len" and links:
                    tr = self.decide(T.truth(m[0][0][1]), st) if T.truth(m[0][0][1])[0] != "truth" else (
                        st.facts.get(T.truth(m[0][0][1])))
                    if tr is False:
                        eqv = 0
                    elif tr:
                        low(c, False) if c > 0 else high(c, False)
        if eqv is not None:
            return (eqv + c0 < 0) if atom[0] == "lt0" else (eqv + c0 == 0)
        t = -c0   # compare q with t
        if atom[0] == "lt0":
            if hi is not None and (hi[0] < t or (hi[0] == t and hi[1])):
                return True
            if lo is not None and lo[0] >= t:
                return False
        else:
            if t in neq:
                return False
            if hi is not None and (hi[0] < t or (hi[0] == t and hi[1])):
                return False
            if lo is not None and (lo[0] > t or (lo[0] == t and lo[1])):
                return False
            if lo is not None and hi is not None and lo[0] == hi[0] == t and not lo[1] and not hi[1]:
                return True
        return None

    def assume(self, atom, b, st):
        if atom[0] == "not":
            return self.assume(atom[1], not b, st)
        if atom[0] == "bool":
            return st if atom[1] == b else None
        d = self.decide(atom, st)
        if d is not None:
            return st if d == b else None
        if atom[0] in ("conj", "disj"):
            want = atom[0] == "conj"
            if b == want:
                for a in atom[1]:
                    st = self.assume(a, b, st)
                    if st is None:
                        return None
                return st
            st.facts[atom] = b
            return st
        st.facts[atom] = b
        if atom[0] == "truth" and b:
            st.facts.setdefault(("isnone", atom[1]), False)
        return st

    def decide_isinstance(self, atom, st):
        x, c = atom[1], atom[2]
        if x[0] in ("list", "dict", "set", "tuple"):
            return c == x[0] if c in TYPES else False
        if x[0] in ("str", "fstr"):
            return c == "str" or (False if c in TYPES or c == "simpy.Event" else None)
        if x[0] == "res" and x[2] in ("event", "timeout", "all_of", "any_of", "process"):
            return c == "simpy.Event" if c in ("simpy.Event", "list", "dict", "str") else None
        if x == T.NONE:
            return False
        for f, v in st.facts.items():
            if v and f[0] == "isinstance" and f[1] == x and f[2] != c:
                for g in CONTRA:
                    if f[2] in g and c in g:
                        return False
        t = self.type_of(x, st)
        if t is not None and c in self.prog.classes:
            return c in self.prog.mro(t)
        return None

    def isinstance_atom(self, v, c, st):
        v = self.snap(v, st)
        if c[0] == "tuple":
            atoms = tuple(self.isinstance_atom(v, s[1], st) for s in c[1])
            if T.TRUE in atoms:
                return T.TRUE
            atoms = tuple(a for a in atoms if a != T.FALSE)
            return ("disj", atoms) if len(atoms) > 1 else (atoms[0] if atoms else T.FALSE)
        n = c[1] if c[0] in ("class", "ext", "builtin") else T.tkey(c)
        if n in ("simpy.events.Event", "simpy.core.Event"):
            n = "simpy.Event"
        at = ("isinstance", v, n)
        d = self.decide_isinstance(at, st)
        return at if d is None else ("bool", d)

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, e, st, ctx):
        out = []
        for b, y in self.ev(e.value, st, ctx):
            out.extend(self.get_attr(b, self.mangled(e.attr, ctx), y, ctx, e))
        return out

    def type_of(self, t, st=None):
        if t in self.types:
            return self.types[t]
        if t[0] in ("attr", "vol"):
            nm = t[2]
            if nm == "container":
                return self.T_CONTAINER
            return self.ATTR_TYPES.get(nm)
        if t[0] == "ref" and st is not None:
            return None
        if t[0] == "new":
            return t[2] if isinstance(t[2], str) else None
        return None

    T_CONTAINER = "openclsim.core.events_container.EventsContainer"
    ATTR_TYPES = {}

    def get_attr(self, b, attr, st, ctx, node):
        b = self.canon(b)
        if b[0] in ("module", "ext"):
            r = self.prog.resolve_attr(b, attr)
            return [(self.symbol(r, st, ctx), st)]
        if b[0] == "super":
            return [(("supermeth", b, attr), st)]
        if b[0] == "class":
            c = self.prog.classes.get(b[1])
            if c is not None:
                f = c.lookup(attr)
                if f is not None:
                    return [(("unbound", f.cls.qual, attr), st)]
                k = c.lookup_const(attr)
                if k is not None and not c.is_enum and attr not in self.prog.rewritten()[0]:
                    return self.class_const(k, st, ctx)
            return [(("attr", b, attr), st)]
        if attr == "env" and b[0] != "global":
            if (b, attr) in st.heap:
                return [(self.canon(st.heap[(b, attr)]), st)]
            return [(ENV, st)]
        if b == ENV and attr == "now":
            return [(("now", st.now), st)]
        if b == ENV and attr == "_now":
            return [(("now", st.now), st)]
        if b[0] == "ref":
            d = st.objs.get(b[1])
            if d is not None:
                return [(("objmeth", b, attr), st)]
        if b[0] in ("str", "fstr", "tuple", "list", "dict", "set"):
            return [(("objmeth", b, attr), st)]
        if (b, attr) in st.heap:
            return [(self.canon(st.heap[(b, attr)]), st)]
        if b[0] == "new":
            kw = dict(b[3]) if len(b) > 3 else {}
            # instance of a repo class: constructor arguments are often stored under the same name; not assumed
        cls = self.type_of(b, st)
        if cls is not None:
            c = self.prog.classes.get(cls)
            f = c.lookup(attr) if c else None
            if f is not None:
                if f.is_property:
                    if attr in self.opaque:
                        return [(self.canon(("prop", b, attr, st.se)), st)]
                    return self.inline(f, [b], {}, st, ctx, node)
                return [(("bound", b, attr, f.cls.qual), st)]
            k = c.lookup_const(attr) if c else None
            if k is not None and attr not in self.prog.rewritten()[0]:
                return self.class_const(k, st, ctx)
        else:
            # property known by its name only
            fs = [f for f in self.prog.methods_named(attr) if f.is_property]
            if len(fs) == 1 and len(self.prog.methods_named(attr)) == 1 and attr not in self.opaque:
                return self.inline(fs[0], [b], {}, st, ctx, node)
            if fs and attr in self.opaque:
                return [(self.canon(("prop", b, attr, st.se)), st)]
        if attr in self.VOLATILE:
            return [(self.canon(("vol", st.se, b, attr)), st)]
        return [(self.canon(("attr", b, attr)), st)]

    def class_const(self, k, st, ctx):
        c, expr = k
        fn = Func(f"{c.qual}.<class>", _FakeFn(expr), c.module, c)
        v, s2 = self.ev(expr, st.copy(), (fn, (None, c.qual)))[0]
        return [(self.snap(v, s2), st)]

    # -------------------------------------------------------------- subscripts
    def e_Subscript(self, e, st, ctx):
        out = []
        for b, y in self.ev(e.value, st, ctx):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                for vs, z in self.evs([p if p is not None else ast.Constant(value=None) for p in parts], y, ctx):
                    out.append((self.slice_of(b, vs, z, ctx, e), z))
                continue
            for k, z in self.ev(e.slice, y, ctx):
                out.extend(self.get_item(b, k, z, ctx, e))
        return out

    def e_Slice(self, e, st, ctx):
        parts = [p if p is not None else ast.Constant(value=None) for p in (e.lower, e.upper, e.step)]
        return [(("call", "slice", tuple(vs), ()), z) for vs, z in self.evs(parts, st, ctx)]

    def slice_of(self, b, vs, st, ctx, node):
        d = self.deref(b, st)
        lo, hi, step = vs
        if d is not None and step == T.NONE and all(s[0] == "item" for s in d[1]):
            i = int(lo[1]) if lo[0] == "num" else (0 if lo == T.NONE else None)
            j = int(hi[1]) if hi[0] == "num" else (len(d[1]) if hi == T.NONE else None)
            if i is not None and j is not None:
                return self.alloc(d[0], d[1][i:j], st, ctx, node) if d[0] == "list" else (d[0], d[1][i:j])
        if lo in (T.NONE, T.num(0)) and hi == T.NONE and step == T.NONE:
            return self.copy_list(b, st, ctx, node)
        return ("slice", self.snap(b, st), lo, hi, step)

    def copy_list(self, b, st, ctx, node):
        return self.alloc("list", self.as_segs(b, st), st, ctx, node, "c")

    def get_item(self, b, k, st, ctx, node):
        b = self.canon(b)
        k = self.snap(k, st)
        d = self.deref(b, st)
        if d is not None:
            if d[0] == "dict":
                for s in d[1]:
                    if s[0] == "kv" and s[1] == k:
                        return [(s[2], st)]
                if all(s[0] == "kv" for s in d[1]) and d[1]:
                    if T.is_const(k) and all(T.is_const(s[1]) for s in d[1]):
                        self.do_raise(st, ("exc", "KeyError", ()), ctx, node)
                        return []
                    if all(T.is_const(s[1]) for s in d[1]) and len(d[1]) <= 8:
                        # dispatch table: fork on the key
                        out = []
                        rest = st
                        for s in d[1]:
                            nxt = None
                            for bb, y in self.fork(T.eq(k, s[1]), rest, ctx, node):
                                if bb:
                                    out.append((s[2], y))
                                else:
                                    nxt = y
                            if nxt is None:
                                rest = None
                                break
                            rest = nxt
                        if rest is not None:
                            self.do_raise(rest, ("exc", "KeyError", ()), ctx, node)
                        return out
                return [(("key", self.snap(b, st), k), st)]
            segs = d[1]
            if k[0] == "num" and k[1].denominator == 1 and segs and all(s[0] == "item" for s in segs):
                i = int(k[1])
                if -len(segs) <= i < len(segs):
                    return [(segs[i][1], st)]
                self.do_raise(st, ("exc", "IndexError", ()), ctx, node)
                return []
            if k[0] == "num" and k[1] == 0 and segs and segs[0][0] == "item":
                return [(segs[0][1], st)]
            if len(segs) == 1 and segs[0][0] == "splat":
                return [(self.elem(segs[0][1], k, st), st)]
            if len(segs) == 1 and segs[0][0] == "each" and segs[0][2][0] == "item":
                _, X, seg, conds = segs[0]
                src = X if not conds else ("filter", X, conds)
                el = self.elem(src, k, st)
                return [(T.inst(seg[1], el), st)]
            return [(("key", self.snap(b, st), k), st)]
        if (b, k) in st.items:
            v = st.items[(b, k)]
            if v == ("absent",):
                self.do_raise(st, ("exc", "KeyError", ()), ctx, node)
                return []
            return [(v, st)]
        if st.facts.get(("in", k, self.snap(b, st))) is False:
            self.do_raise(st, ("exc", "KeyError", ()), ctx, node)
            return []
        return [(self.elem(self.snap(b, st), k, st), st)]

    def elem(self, X, k, st):
        """X[k]; recognised as the current/previous element of a loop over X."""
        for m, c in (T.to_poly(k).items() if k[0] in ("poly", "it", "num") else ()):
            for t, ex in m:
                if t[0] == "it" and ex == 1 and c == 1:
                    off = T.sub(k, t)
                    if off[0] == "num" and off[1].denominator == 1:
                        return ("at", X, t[1], int(off[1]))
        if k[0] == "num":
            act = self.first_iter.get((X, ), None) if hasattr(self, "first_iter") else None
        return ("key", X, k)

    # -------------------------------------------------------------- iteration
    def as_segs(self, v, st):
        """Content of a collection value as segments."""
        d = self.deref(v, st)
        if d is not None:
            if d[0] == "dict":
                out = []
                for s in d[1]:
                    out.append(("item", s[1]) if s[0] == "kv" else ("splat", s[1]) if s[0] == "splat" else s)
                return tuple(out)
            if d[0] == "set" and self.sets and len(d[1]) == 1 and d[1][0][0] == "splat":
                return (("splat", ("set", (self.snap_seg(d[1][0], st),))),)
            return d[1]
        v = self.snap(v, st)
        if v[0] == "dkeys":
            v = v[1]
        return (("splat", v),)

    def iter_spec(self, e, st, ctx):
        """Normalised iteration: [(spec, state)], spec = ('known', values) | ('loop', X, binder)."""
        out = []
        for v, y in self.ev(e, st, ctx):
            out.append((self.spec_of(v, y), y))
        return out

    def spec_of(self, v, st):
        if isinstance(v, tuple) and v[0] == "ref" and st.objs[v[1]][0] == "dict":
            segs = st.objs[v[1]][1]
            if all(s[0] == "kv" for s in segs):
                return ("known", [s[1] for s in segs])
        if isinstance(v, tuple) and v[0] == "iterator":
            return self.spec_iterator(v, st)
        d = self.deref(v, st)
        if d is not None:
            segs = d[1]
            if all(s[0] == "item" for s in segs):
                return ("known", [s[1] for s in segs])
            if len(segs) == 1 and segs[0][0] == "splat":
                if d[0] == "set" and self.sets:
                    return self.spec_source(("set", (self.snap_seg(segs[0], st),)))
                return self.spec_source(segs[0][1])
            if len(segs) == 1 and segs[0][0] == "each" and segs[0][2][0] == "item":
                _, X, seg, conds = segs[0]
                if conds:
                    X = ("filter", X, conds)

                def binder(it, L, X=X, seg=seg, conds=conds):
                    el = ("at", X, L, 0)
                    cs = []
                    for c in conds:
                        c2 = T.inst(c, el)
                        cs.append((c2, True))
                    return T.inst(seg[1], el), cs

                return ("loop", X, binder)
            return self.spec_source((d[0], tuple(self.snap_seg(s, st) for s in segs)))
        v = self.snap(v, st)
        return self.spec_source(v)

    def spec_source(self, X):
        if X[0] == "dkeys":
            X = X[1]
        return ("loop", X, lambda it, L: (("at", X, L, 0), ()))

    def spec_iterator(self, v, st):
        kind = v[1]
        if kind == "enumerate":
            inner = self.spec_of(v[2], st)
            start = v[3]
            if inner[0] == "known":
                return ("known", [("tuple", (("item", T.add(start, T.num(i))), ("item", x)))
                                  for i, x in enumerate(inner[1])])

            def b(it, L):
                val, cs = inner[2](it, L)
                return ("tuple", (("item", T.add(start, it)), ("item", val))), cs

            return ("loop", inner[1], b)
        if kind == "range":
            lo, hi, step = v[2], v[3], v[4]
            if lo[0] == hi[0] == step[0] == "num" and step[1] != 0 and abs((hi[1] - lo[1]) / step[1]) <= 6:
                vals, i = [], lo[1]
                while (i < hi[1]) if step[1] > 0 else (i > hi[1]):
                    vals.append(("num", i))
                    i += step[1]
                return ("known", vals)
            X = None
            if step == T.num(1):
                p = T.to_poly(hi)
                lens = [m[0][0] for m in p if len(m) == 1 and m[0][0][0] == "len"]
                if len(lens) == 1 and p == {((lens[0], 1),): 1}:
                    if lo == T.num(0):
                        X = lens[0][1]
                    elif lo == T.num(1):
                        X = ("pairs", lens[0][1])
                elif len(lens) == 1 and p == {((lens[0], 1),): 1, (): -1} and lo == T.num(0):
                    X = ("pairs", lens[0][1])
            if X is None:
                X = ("range", lo, hi, step)

            def b(it, L):
                # inside the loop the index is symbolic also in the first iteration
                return T.add(lo, T.mul(step, ("it", L))), ()

            return ("loop", X, b)
        if kind == "zip":
            vs = v[2]
            # consecutive pairs
            if len(vs) == 2:
                a, b2 = vs
                X = self.pair_source(a, b2, st)
                if X is not None:
                    return ("loop", ("pairs", X), lambda it, L: (
                        ("tuple", (("item", ("at", X, L, 0)), ("item", ("at", X, L, 1)))), ()))
            specs = [self.spec_of(x, st) for x in vs]
            if all(s[0] == "known" for s in specs):
                return ("known", [("tuple", tuple(("item", x) for x in row)) for row in zip(*[s[1] for s in specs])])
            if all(s[0] == "loop" for s in specs):
                def b(it, L):
                    parts, cs = [], []
                    for s in specs:
                        val, c = s[2](it, L)
                        parts.append(("item", val))
                        cs.extend(c)
                    return ("tuple", tuple(parts)), cs

                srcs = [s[1] for s in specs]
                X = srcs[0] if all(x == srcs[0] for x in srcs) else ("zip", tuple(srcs))
                return ("loop", X, b)
            X = ("zip", tuple(self.snap(x, st) for x in vs))
            return self.spec_source(X)
        if kind == "pairwise":
            inner = self.spec_of(v[2], st)
            if inner[0] == "known":
                k = inner[1]
                return ("known", [("tuple", (("item", a), ("item", b))) for a, b in zip(k, k[1:])])
            X = inner[1]
            return ("loop", ("pairs", X), lambda it, L: (
                ("tuple", (("item", ("at", X, L, 0)), ("item", ("at", X, L, 1)))), ()))
        if kind == "items":
            d = self.deref(v[2], st)
            if d is not None and all(s[0] == "kv" for s in d[1]):
                return ("known", [("tuple", (("item", s[1]), ("item", s[2]))) for s in d[1]])
            X = self.snap(v[2], st)
            return ("loop", X, lambda it, L: (
                ("tuple", (("item", ("at", X, L, 0)), ("item", ("key", X, ("at", X, L, 0))))), ()))
        if kind == "values":
            d = self.deref(v[2], st)
            if d is not None and all(s[0] == "kv" for s in d[1]):
                return ("known", [s[2] for s in d[1]])
            X = self.snap(v[2], st)
            return ("loop", X, lambda it, L: (("key", X, ("at", X, L, 0)), ()))
        if kind == "map":
            inner = self.spec_of(v[3], st)
            fn = v[2]
            if inner[0] == "known":
                return ("known", [("apply", fn, x) for x in inner[1]])
            return ("loop", inner[1], lambda it, L: (("apply", fn, inner[2](it, L)[0]), inner[2](it, L)[1]))
        if kind == "reversed":
            inner = self.spec_of(v[2], st)
            if inner[0] == "known":
                return ("known", inner[1][::-1])
            X = ("reversed", inner[1])
            return self.spec_source(X)
        return self.spec_source(self.snap(v, st))

    def pair_source(self, a, b, st):
        def sl(t):
            t = self.snap(t, st) if t[0] == "ref" else t
            if t[0] == "slice" and t[4] == T.NONE:
                return t
            return None

        sa, sb = sl(a), sl(b)
        full_a = sa is None
        if sb is None or sb[2] != T.num(1) or sb[3] != T.NONE:
            return None
        X = sb[1]
        if full_a:
            return X if self.snap(a, st) == X else None
        if sa[1] == X and sa[2] in (T.NONE, T.num(0)) and sa[3] in (T.num(-1), T.NONE):
            return X
        return None

    # -------------------------------------------------------------- comprehensions
    def e_ListComp(self, e, st, ctx):
        return self.comp("list", e, e.elt, None, e.generators, st, ctx)

    def e_SetComp(self, e, st, ctx):
        return self.comp("set", e, e.elt, None, e.generators, st, ctx)

    def e_GeneratorExp(self, e, st, ctx):
        return self.comp("list", e, e.elt, None, e.generators, st, ctx)

    def e_DictComp(self, e, st, ctx):
        return self.comp("dict", e, e.key, e.value, e.generators, st, ctx)

    def comp(self, kind, e, elt, val, gens, st, ctx):
        """Desugared to nested loops appending to a fresh collection."""
        name = f"%c{e.lineno}.{e.col_offset}"
        ref = self.alloc(kind, (), st, ctx, e)
        saved = {k: v for k, v in st.env.items() if k[0] == ctx[1]}
        st.env[(ctx[1], name)] = ref
        if kind == "dict":
            body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=elt,
                                                      ctx=ast.Store())], value=val)]
        else:
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr="append",
                                                               ctx=ast.Load()), args=[elt], keywords=[]))]
        for g in reversed(gens):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            for n in ast.walk(b):
                if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                    ast.copy_location(n, e)
        # nested loops of one comprehension need distinct positions
        fors = [n for b in body for n in ast.walk(b) if isinstance(n, ast.For)]
        for i, f in enumerate(fors):
            if not getattr(f, "_moved", False):
                f.col_offset = f.col_offset + 1000 * (i + 1)
                f._moved = True
        out = []
        targets = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        pinned = self.pinned
        self.pinned = pinned + (tuple(st.objs),)
        try:
            outs = self.block(body, st, ctx)
        finally:
            self.pinned = pinned
        for k, v, y in outs:
            for t in targets:
                if (ctx[1], t) in saved:
                    y.env[(ctx[1], t)] = saved[(ctx[1], t)]
                else:
                    y.env.pop((ctx[1], t), None)
            y.env.pop((ctx[1], name), None)
            if y.objs.get(ref[1], ("",))[0] == "set":
                y.objs[ref[1]] = ("set", self.dedup(y.objs[ref[1]][1], y))
            out.append(y)
        if all(isinstance(g.iter, (ast.List, ast.Tuple)) and len(g.iter.elts) <= 4 for g in gens):
            return [(ref, y) for y in out]      # a literal collection: cases, not a summary
        return [(ref, y) for y in self.join_pure(st, out)]

    def join_pure(self, before, states):
        """A comprehension is one value: what its iterations learnt is not kept apart."""
        if len(states) < 2:
            return states
        groups = {}
        for y in states:
            y.facts = {a: v for a, v in y.facts.items() if before.facts.get(a) == v}
            groups.setdefault(y.key(), []).append(y)
        out = []
        for g in groups.values():
            h = g[0]
            if len(g) > 1 and not self.mute:
                n = self.g.node()
                for y in g:
                    self.g.edge(y.node, None, n)
                h.node = n
            out.append(h)
        return out

    # -------------------------------------------------------------- yields
    def e_Yield(self, e, st, ctx):
        out = []
        vals = [(T.NONE, st)] if e.value is None else self.ev(e.value, st, ctx)
        for v, y in vals:
            sid = self.site(ctx, e)
            self.emit(y, self.mk("yield", None, None, ctx, e, y, self.snap(v, y)))
            self.bump_time(y, sid)
            out.append((("res", sid, "sent", None, ()), y))
        return out

    def e_YieldFrom(self, e, st, ctx):
        out = []
        for v, y in self.ev(e.value, st, ctx):
            out.extend(self.run_gen(v, y, ctx, e))
        return out

    def run_gen(self, v, st, ctx, e):
        sid = self.site(ctx, e)
        if isinstance(v, tuple) and v[0] == "gen":
            fid, args = v[1], dict(v[2])
            f = self.gens[fid]
            return self.inline_bound(f, args, st, ctx, e)
        if isinstance(v, tuple) and v[0] == "ref":
            # yield from a list: yields each element
            d = st.objs[v[1]]
            if all(s[0] == "item" for s in d[1]):
                for s in d[1]:
                    self.emit(st, self.mk("yield", None, None, ctx, e, st, self.snap(s[1], st)))
                    self.bump_time(st, sid)
                return [(T.NONE, st)]
        v = self.snap(v, st)
        if v[0] == "res":
            eff = self.mk("yieldfrom", v[2], v[3], ctx, e, st, v, dict((k, x) for k, x in v[4] if k), v)
        else:
            eff = self.mk("yieldfrom", None, None, ctx, e, st, v)
        self.emit(st, eff)
        if st.intry:
            y2 = st.copy()
            self.bump_time(y2, sid)
            self.raise_sinks[-1].append((("exc", "any", ()), y2))
        self.bump_time(st, sid)
        return [(("res", sid, "ret", v, ()), st)]


class _FakeFn:
    """Stand-in for a function node when class/module level expressions are evaluated."""

    def __init__(self, expr):
        self.body = [ast.Expr(value=expr)]
        self.lineno = getattr(expr, "lineno", 0)
        self.col_offset = 0
        self.name = "<expr>"
        self.decorator_list = []
        self.args = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                                  defaults=[])


def _ats(t, X):
    out = set()

    def walk(u):
        if isinstance(u, tuple):
            if len(u) == 4 and u[0] == "at" and u[1] == X:
                out.add(u)
            for c in u:
                walk(c)

    walk(t)
    return out
