"""Calls: argument binding, inlining, opaque effects, builtins and collection methods."""

import ast

import terms as T
from engine_expr import (BUILTINS, ENV, EXC_BUILTINS, MUTATORS, NOOP_MODULES, OBSERVERS, PURE_BUILTINS, PURE_METHODS,
                         SIMPY_DEFAULTS, SIMPY_EFFECTS, SIMPY_SIGS, TYPES)
from model import Func


LOCAL_CHANGES = {"append", "add", "extend", "update", "insert", "pop", "remove", "discard", "clear"}


def in_comprehension(node):
    f = getattr(node, "func", None)
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id.startswith("%c")


class CallMixin:
    # -------------------------------------------------------------- entry
    def e_Call(self, e, st, ctx):
        out = []
        # super() needs the lexical class
        if isinstance(e.func, ast.Name) and e.func.id == "super" and ("super" not in ctx[0].module.symbols):
            func = ctx[0]
            fr = ctx[1]
            f2 = func
            while f2.cls is None and getattr(f2, "closure_ctx", None):
                f2, fr = f2.closure_ctx
            first = f2.params()[0][0] if f2.params() else None
            selfv = st.env.get((fr, first), ("param", "self"))
            g2 = f2
            while getattr(g2, "closure_ctx", None):
                g2, fr = g2.closure_ctx
                if g2.params():
                    selfv = st.env.get((fr, g2.params()[0][0]), selfv)
            return [(("super", f2.cls.qual if f2.cls else None, selfv), st)]
        for f, y in self.ev(e.func, st, ctx):
            for (args, kwargs), z in self.call_args(e, y, ctx):
                out.extend(self.apply(f, args, kwargs, z, ctx, e))
        return out

    def call_args(self, e, st, ctx):
        """[((positional, keyword), state)]; positional may contain ('*', v), keyword key None = ('**', v)."""
        res = [(((), ()), st)]
        for a in e.args:
            nxt = []
            for (pa, ka), y in res:
                if isinstance(a, ast.Starred):
                    for v, z in self.ev(a.value, y, ctx):
                        d = self.deref(v, z)
                        if d is not None and all(s[0] == "item" for s in d[1]):
                            nxt.append(((pa + tuple(s[1] for s in d[1]), ka), z))
                        else:
                            nxt.append(((pa + (("*", self.snap(v, z)),), ka), z))
                else:
                    for v, z in self.ev(a, y, ctx):
                        nxt.append(((pa + (v,), ka), z))
            res = nxt
        for k in e.keywords:
            nxt = []
            for (pa, ka), y in res:
                for v, z in self.ev(k.value, y, ctx):
                    if k.arg is None:
                        d = self.deref(v, z)
                        if d is not None and d[0] == "dict" and all(
                                s[0] == "kv" and s[1][0] == "str" or s[0] == "splat" for s in d[1]):
                            add = tuple((s[1][1], s[2]) if s[0] == "kv" else ("**", self.snap(s[1], z)) for s in d[1])
                            nxt.append(((pa, ka + add), z))
                        else:
                            nxt.append(((pa, ka + (("**", self.snap(v, z)),)), z))
                    else:
                        nxt.append(((pa, ka + ((k.arg, v),)), z))
            res = nxt
        return [((list(pa), list(ka)), y) for (pa, ka), y in res]

    # -------------------------------------------------------------- dispatch
    def apply(self, f, args, kwargs, st, ctx, node):
        o = f[0]
        if o == "partial":
            return self.apply(f[1], list(f[2]) + args, list(f[3]) + [kv for kv in kwargs], st, ctx, node)
        if o == "closure":
            fn = self.closures[f[1]]
            return self.call_func(fn, args, kwargs, st, ctx, node, defaults=dict(f[2]))
        if o == "func":
            fn = self.prog.functions.get(f[1])
            if fn is not None:
                return self.call_func(fn, args, kwargs, st, ctx, node)
        if o == "bound":
            fn = self.prog.classes[f[3]].methods[f[2]]
            return self.call_method(fn, f[1], args, kwargs, st, ctx, node)
        if o == "unbound":
            fn = self.prog.classes[f[1]].methods[f[2]]
            if fn.is_static:
                return self.call_func(fn, args, kwargs, st, ctx, node)
            if args:
                return self.call_method(fn, args[0], args[1:], kwargs, st, ctx, node)
        if o == "supermeth":
            return self.call_super(f, args, kwargs, st, ctx, node)
        if o == "objmeth":
            return self.obj_method(f[1], f[2], args, dict((k, v) for k, v in kwargs), st, ctx, node)
        if o == "attr" or o == "vol":
            b = f[1] if o == "attr" else f[2]
            name = f[2] if o == "attr" else f[3]
            return self.unknown_method(b, name, args, kwargs, st, ctx, node)
        if o == "class":
            return self.instantiate(f, args, kwargs, st, ctx, node)
        if o == "builtin":
            return self.builtin(f[1], args, kwargs, st, ctx, node)
        if o == "ext":
            return self.ext_call(f[1], args, kwargs, st, ctx, node)
        if o == "getattrf":
            return self.unknown_method(f[1], f[2], args, kwargs, st, ctx, node)
        if o == "opname":
            a, b = [self.snap(x, st) for x in args[:2]] if len(args) >= 2 else (T.NONE, T.NONE)
            k = self.known_const(f[1], st)
            if k is not None and k in ("gt", "ge", "lt", "le", "eq", "ne"):
                return [(self.order_atom(k, a, b), st)]
            return [(("opcmp", f[1], a, b), st)]
        if o == "apply":
            pass
        # calling an unknown value
        return self.opaque_call(None, "<call>", f, args, kwargs, st, ctx, node)

    def known_const(self, t, st):
        if t[0] == "str":
            return t[1]
        for a, v in st.facts.items():
            if v and a[0] == "eq" and t in (a[1], a[2]):
                other = a[2] if a[1] == t else a[1]
                if other[0] == "str":
                    return other[1]
        return None

    # -------------------------------------------------------------- repo functions
    def call_func(self, fn, args, kwargs, st, ctx, node, defaults=None):
        if fn.name in self.opaque and fn.qual != "" and not fn.name.startswith("<"):
            return self.opaque_call(fn, fn.name, None, args, kwargs, st, ctx, node)
        if self.too_deep(fn, st):
            return self.opaque_call(fn, fn.name, None, args, kwargs, st, ctx, node)
        bound = self.bind(fn, args, kwargs, st, defaults)
        if bound is None:
            return self.opaque_call(fn, fn.name, None, args, kwargs, st, ctx, node)
        if fn.is_generator:
            return [(self.make_gen(fn, bound), st)]
        return self.inline_bound(fn, bound, st, ctx, node)

    def call_method(self, fn, recv, args, kwargs, st, ctx, node):
        if fn.is_static:
            if fn.name in self.opaque:
                return self.opaque_call(fn, fn.name, recv, args, kwargs, st, ctx, node)
            return self.call_func(fn, args, kwargs, st, ctx, node)
        if fn.name in self.opaque or self.too_deep(fn, st):
            return self.opaque_call(fn, fn.name, recv, args, kwargs, st, ctx, node)
        bound = self.bind(fn, [recv] + args, kwargs, st)
        if bound is None:
            return self.opaque_call(fn, fn.name, recv, args, kwargs, st, ctx, node)
        if fn.is_generator:
            return [(self.make_gen(fn, bound), st)]
        return self.inline_bound(fn, bound, st, ctx, node)

    def too_deep(self, fn, st):
        return len(st.frames) >= self.MAX_DEPTH or st.frames.count(fn.qual) >= 1

    def make_gen(self, fn, bound):
        fid = fn.qual + f"@{getattr(fn.node, 'lineno', 0)}"
        self.gens[fid] = fn
        return ("gen", fid, tuple(sorted(bound.items())))

    def inline(self, fn, args, kwargs, st, ctx, node):
        bound = self.bind(fn, args, list(kwargs.items()) if isinstance(kwargs, dict) else kwargs, st)
        if bound is None or self.too_deep(fn, st):
            return self.opaque_call(fn, fn.name, args[0] if args else None, args[1:], [], st, ctx, node)
        return self.inline_bound(fn, bound, st, ctx, node)

    def bind(self, fn, args, kwargs, st, defaults=None):
        """parameter -> value (None when it cannot be bound statically)."""
        out = {}
        params = fn.params()
        pos = [p for p in params if p[2] == "pos"]
        star = next((p for p in params if p[2] == "*"), None)
        dstar = next((p for p in params if p[2] == "**"), None)
        if any(isinstance(a, tuple) and a and a[0] == "*" for a in args):
            n = next(i for i, a in enumerate(args) if isinstance(a, tuple) and a and a[0] == "*")
            if not star and n == len(args) - 1:
                # f(*unknown) with a fixed signature: the remaining parameters are its elements
                kw = {k for k, _ in kwargs}
                rest = [p for p in pos[n:] if p[0] not in kw]
                if rest and all(p[1] is None for p in rest) and "**" not in kw:
                    src = args[n][1]
                    args = list(args[:n]) + [self.unpack(src, i, len(rest), st) for i in range(len(rest))]
            if not any(isinstance(a, tuple) and a and a[0] == "*" for a in args):
                return self.bind(fn, args, kwargs, st, defaults)
            if n < len([p for p in pos]) and not star:
                return None
            if not star:
                return None
        i = 0
        extra = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                extra.append(("splat", a[1]))
            elif i < len(pos) and not extra:
                out[pos[i][0]] = a
                i += 1
            else:
                extra.append(("item", a))
        if extra and not star:
            return None
        if star:
            out[star[0]] = ("tuple", tuple(extra)) if extra else ("tuple", ())
            if len(extra) == 1 and extra[0][0] == "splat":
                out[star[0]] = extra[0][1]
        names = {p[0] for p in params if p[2] in ("pos", "kw")}
        kx = []
        for k, v in kwargs:
            if k == "**":
                kx.append(("splat", v))
            elif k in names:
                if k in out:
                    return None
                out[k] = v
            else:
                kx.append(("kv", ("str", k), v))
        if kx and not dstar:
            if any(s[0] == "kv" for s in kx):
                return None
            # **unknown into a fixed signature: remaining parameters come from it
            src = kx[0][1]
            for p in params:
                if p[2] in ("pos", "kw") and p[0] not in out:
                    out[p[0]] = ("key", src, ("str", p[0]))
            kx = []
        if dstar:
            if len(kx) == 1 and kx[0][0] == "splat":
                out[dstar[0]] = kx[0][1]
            else:
                out[dstar[0]] = ("dict", tuple(kx))
        for n, d, kind in params:
            if kind in ("pos", "kw") and n not in out:
                if defaults and n in defaults:
                    out[n] = defaults[n]
                elif d is not None:
                    out[n] = self.default_value(fn, n, d, st)
                else:
                    return None
        return out

    def default_value(self, fn, n, d, st):
        if isinstance(d, ast.Constant):
            return T.const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            return T.neg(T.const(d.operand.value))
        v = self.prog.fold(fn.module, d, fn.cls)
        if v is not None:
            return T.const(v)
        r = self.prog.resolve_node(fn.module, d)
        if r is not None and r[0] in ("class", "func", "ext"):
            return (r[0], r[1])
        if isinstance(d, ast.Attribute):
            b = self.prog.resolve_node(fn.module, d.value)
            if b is not None and b[0] == "class":
                return ("attr", ("class", b[1]), d.attr)
        return ("default", fn.qual, n)

    def inline_bound(self, fn, bound, st, ctx, node):
        frame = (ctx[1], fn.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        self.funcs_seen.add(fn.qual)
        saved_frames = st.frames
        st.frames = st.frames + (fn.qual,)
        # drop leftovers of an earlier call from the same site
        for k in [k for k in st.env if k[0] == frame]:
            del st.env[k]
        for n, v in bound.items():
            if isinstance(v, tuple) and v and v[0] in ("dict",) and v[1] is not None and n != "":
                # collect **kwargs into a fresh dict object
                r = self.site((fn, frame), fn.node, "k" + n)
                st.objs[r] = ("dict", tuple(v[1]))
                v = ("ref", r)
            st.env[(frame, n)] = v
        f = getattr(fn, "closure_ctx", None)
        body = fn.node.body if isinstance(fn.node.body, list) else [ast.copy_location(ast.Return(value=fn.node.body), fn.node)]
        pinned = self.pinned
        self.pinned = pinned + (tuple(st.objs),)
        try:
            outs = self.block(body, st, (fn, frame))
        finally:
            self.pinned = pinned
        res = []
        keep = _has_closure(fn.node)
        for kind, val, y in outs:
            if kind in ("break", "continue"):
                continue
            if not keep:
                for k in [k for k in y.env if k[0] == frame]:
                    del y.env[k]
            y.frames = saved_frames
            res.append((val if kind == "return" else T.NONE, y))
        return res

    # -------------------------------------------------------------- super()
    def call_super(self, f, args, kwargs, st, ctx, node):
        _, sup, name = f
        _, cls, selfv = sup
        dyn = self.types.get(selfv) or self.self_type or cls
        mro = self.prog.mro(dyn) if dyn else []
        if cls not in mro:
            mro = self.prog.mro(cls) if cls else []
        i = mro.index(cls) if cls in mro else -1
        for q in mro[i + 1:]:
            c = self.prog.classes.get(q)
            if c is not None and name in c.methods:
                return self.call_method(c.methods[name], selfv, args, kwargs, st, ctx, node)
            if c is None and q != "object":
                if q.endswith("FilterStore") and name == "get":
                    args, kwargs = self.store_filter(args, kwargs, st, ctx, node)
                return self.opaque_call(None, name, ("super", q, selfv), args, kwargs, st, ctx, node, kind="super")
        return self.opaque_call(None, name, ("super", "object", selfv), args, kwargs, st, ctx, node, kind="super")

    def store_filter(self, args, kwargs, st, ctx, node):
        """FilterStore.get(filter): the filter as a condition on the element."""
        f = args[0] if args else dict(kwargs).get("filter")
        if f is None or f[0] not in ("closure", "partial", "func", "bound"):
            return args, kwargs
        rs = self.apply(f, [("bv",)], [], st.copy(), ctx, node)
        if len(rs) == 1:
            return [("pred", self.snap(rs[0][0], st))], []
        # a conjunction: one branch on which all conditions hold
        yes = []
        for v, s in rs:
            new = tuple((a, w) for a, w in s.facts.items() if a not in st.facts)
            v = self.snap(v, st)
            if v == T.FALSE or any(a == v and not w for a, w in new):
                continue
            yes.append([a if w else ("not", a) for a, w in new] + [v])
        if len(yes) == 1:
            return [("pred", ("and",) + tuple(sorted({c for c in yes[0] if c != T.TRUE}, key=repr)))], []
        return args, kwargs

    def lifted(self, f, st, ctx, node):
        """A function given to a library as ("fun", its value for the bound variable); a condition as the cases in which it holds."""
        if f[0] not in ("closure", "partial", "func", "bound"):
            return f
        rs = self.apply(f, [("bv",)], [], st.copy(), ctx, node)
        if len(rs) == 1:
            return ("fun", self.snap(rs[0][0], st))
        cases = []
        for v, s in rs:
            new = [(a, w) for a, w in s.facts.items() if a not in st.facts]
            v = self.snap(v, st)
            if v == T.FALSE:
                continue
            cases.append(("and",) + tuple([a if w else ("not", a) for a, w in new] + ([v] if v != T.TRUE else [])))
        return ("fun", ("or",) + tuple(cases)) if cases else f

    # -------------------------------------------------------------- opaque calls
    def named_args(self, fn, name, args, kwargs, st, method):
        """Arguments by parameter name; defaults filled in."""
        out = {}
        kw = list(kwargs)
        sig = None
        defaults = {}
        if fn is not None:
            ps = fn.params()
            if method and ps and not fn.is_static:
                ps = ps[1:]
            sig = [p[0] for p in ps if p[2] == "pos"]
            for n, d, kind in ps:
                if kind in ("pos", "kw") and d is not None:
                    defaults[n] = self.default_value(fn, n, d, st)
        elif name in SIMPY_SIGS:
            sig = SIMPY_SIGS[name]
            defaults = dict(SIMPY_DEFAULTS.get(name, {}))
        star = False
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == "*":
                out["*"] = self.snap(a[1], st)
                star = True
            elif sig is not None and i < len(sig) and not star:
                out[sig[i]] = self.snap(a, st)
            else:
                out[str(i)] = self.snap(a, st)
        for k, v in kw:
            if k == "**":
                out["**"] = self.snap(v, st)
            else:
                out[k] = self.snap(v, st)
        if "*" not in out and "**" not in out:
            for n, v in defaults.items():
                out.setdefault(n, v)
        return out

    def opaque_call(self, fn, name, recv, args, kwargs, st, ctx, node, kind="call"):
        recv = self.canon(recv) if recv is not None else None
        a = self.named_args(fn, name, args, kwargs, st, recv is not None)
        sa = tuple(sorted(a.items()))
        srecv = self.snap(recv, st) if recv is not None else None
        if name in OBSERVERS and kind == "call":
            res = ("obs", st.se, name, srecv, sa)
            d = getattr(self, "observer_hook", None)
            self.emit(st, self.mk("observe", name, srecv, ctx, node, st, None, a, res, fn))
            return [(res, st)]
        sid = self.site(ctx, node)
        self.stale(st, sid)
        res = ("res", sid, name, srecv, sa)
        gen = fn is not None and fn.is_generator
        self.emit(st, self.mk(kind, name, srecv, ctx, node, st, None, a, res, fn))
        if st.intry and name not in SIMPY_EFFECTS:
            y2 = st.copy()
            if not gen:
                self.bump_state(y2, sid + "s")
            self.raise_sinks[-1].append((("exc", "any", ()), y2))
        if not gen and name not in self.NO_STATE_CHANGE:
            self.bump_state(st, sid + "s")
        return [(res, st)]

    EFFECT_METHODS = frozenset()        # methods of library objects that a rule wants to see as effects

    NO_STATE_CHANGE = {"log_entry_v1", "log_entry_v0", "event", "timeout", "all_of", "any_of", "determine_processor_amount",
                       "determine_reservation_amount", "compute_distance", "compute_duration", "loading", "unloading",
                       "get_subprocesses", "process_data", "check_constraint", "get_log_dataframe", "order_geometry",
                       "get_container_event", "get_full_event", "get_empty_event", "parse_expression", "get_tree_as_list",
                       "delay_processing"}

    def unknown_method(self, b, name, args, kwargs, st, ctx, node):
        """Method call on a receiver of unknown class."""
        b = self.canon(b)
        if name in SIMPY_EFFECTS and not (b[0] == "ext") or name in self.EFFECT_METHODS:
            return self.opaque_call(None, name, b, args, kwargs, st, ctx, node)
        defs = [f for f in self.prog.methods_named(name) if not f.is_property]
        if name == "get" and args and self.looks_dict(b, args, st):
            return self.pure_method(b, name, args, kwargs, st, ctx, node)
        if name in self.opaque and defs:
            return self.opaque_call(defs[0], name, b, args, kwargs, st, ctx, node)
        if name in MUTATORS:
            return self.mutate(b, name, args, kwargs, st, ctx, node)
        if name in PURE_METHODS:
            return self.pure_method(b, name, args, kwargs, st, ctx, node)
        if len(defs) >= 1:
            roots = {f.qual for f in defs}
            if len(roots) == 1:
                return self.call_method(defs[0], b, args, kwargs, st, ctx, node)
        fs = [f for f in self.prog.functions.values() if f.name == name]
        if b[0] in ("global",) and b[1].split(".")[-1] in ("logger", "log", "LOG", "_logger"):
            return [(T.NONE, st)]
        if b[0] == "call" and isinstance(b[1], str) and b[1].startswith("logging."):
            return [(T.NONE, st)]
        if b[0] == "global":
            # a library object held in a module variable (e.g. the shared ellipsoid)
            return [(self.pure_mcall(self.global_lib(b), name, args, kwargs, st), st)]
        if self.lift and name in ("apply", "map", "assign", "transform"):
            args = [self.lifted(a, st, ctx, node) for a in args]
            kwargs = [(k, self.lifted(v, st, ctx, node)) for k, v in kwargs]
        if name in self.EFFECTS:
            return self.opaque_call(None, name, b, args, kwargs, st, ctx, node)
        if b[0] in ("call", "mcall", "ext", "op", "slice", "eq", "lt0", "eq0", "not", "setcol") or name in self.LIB_METHODS or self.is_lib(b):
            if any(k == "inplace" and v != T.FALSE for k, v in kwargs):
                self.emit(st, self.mk("mutate", name, self.snap(b, st), ctx, node, st,
                                      args={str(i): self.snap(a, st) for i, a in enumerate(args)}))
                if self.frames and self.local_frame(b, getattr(node.func, "value", None), st, ctx):
                    new = self.pure_mcall(b, name, args, [(k, v) for k, v in kwargs if k != "inplace"], st)
                    st.env = {n: new if x == b else x for n, x in st.env.items()}
                return [(T.NONE, st)]
            return [(self.pure_mcall(b, name, args, kwargs, st), st)]
        return self.opaque_call(defs[0] if len(defs) == 1 else None, name, b, args, kwargs, st, ctx, node)

    def looks_dict(self, b, args, st):
        """Is x.get(..) a lookup in a mapping (and not taking content from a container)?"""
        for f, v in st.facts.items():
            if v is True and f[0] == "isinstance" and f[1] == b and "dict" in repr(f[2]):
                return True
        if isinstance(args[0], tuple) and args[0][0] == "str":
            return True
        if b[0] == "vol" and b[3] in self.prog.dict_attrs() or b[0] == "attr" and b[2] in self.prog.dict_attrs():
            return True
        return b[0] == "key" or (b[0] == "attr" and b[2] in ("registry", "requested_resources", "__dict__"))

    LIB_METHODS = {"inv", "geometry_length", "shift", "max", "min", "rename", "iterrows", "itertuples", "astype",
                   "line_locate_point", "to_pydatetime", "reset_index", "sort_values", "filter", "drop", "set_index",
                   "groupby", "apply", "isin", "round", "floor", "ceil", "to_dict", "drop_duplicates", "repeat", "dropna", "merge", "as_coordinates"}

    def is_lib(self, b):
        if b[0] in ("key", "stale"):
            return self.is_lib(b[1])
        if b[0] in ("attr",) and b[2] in ("wgs84", "graph", "nodes", "edges", "path", "coords", "dt", "loc", "iloc"):
            return True
        return b[0] in ("call", "mcall")

    def global_lib(self, b):
        """module-level library object: the constructing expression identifies it"""
        mod, _, nm = b[1].rpartition(".")
        m = self.prog.modules.get(mod)
        if m is not None:
            s = m.symbols.get(nm)
            if s and s[0] == "const" and isinstance(s[3], ast.Call):
                fake = Func(f"{mod}.<module>", _FnStub(), m)
                from engine import State

                v = self.ev(s[3], State(), (fake, (None, mod)))[0][0]
                return v
        return b

    def pure_mcall(self, b, name, args, kwargs, st):
        return ("mcall", self.snap(b, st), name, tuple(("", self.snap(a, st)) for a in args)
                + tuple(sorted((k, self.snap(v, st)) for k, v in kwargs)))

    def mutate(self, b, name, args, kwargs, st, ctx, node):
        """Mutation of a collection that is not local to the analysed code."""
        a = {str(i): self.snap(x, st) for i, x in enumerate(args)}
        a.update({k: self.snap(v, st) for k, v in kwargs})
        if name == "setdefault" and args:
            k = a["0"]
            out = []
            for p, y in self.fork(self.in_atom(k, b, st), st, ctx, node):
                if p:
                    it = y.items.get((b, k))
                    out.append((it if it is not None and it != ("absent",) else ("key", b, k), y))
                else:
                    v = args[1] if len(args) > 1 else T.NONE
                    self.emit(y, self.mk("setitem", None, b, ctx, node, y, self.snap(v, y), {"key": k}))
                    y.facts[("in", k, b)] = True
                    out.append((("key", b, k), y))
            return out
        sid = self.site(ctx, node)
        self.stale(st, sid)
        if name == "pop" and args and (b, a["0"]) in st.items:
            v = st.items[(b, a["0"])]
        elif name == "pop" and args:
            v = ("key", b, a["0"])
        else:
            v = ("res", sid, name, b, tuple(sorted(a.items()))) if name in ("pop", "popitem") else T.NONE
        if name == "pop" and args and a["0"][0] not in ("num",):
            # dict.pop(key[, default]) on a mapping
            if len(args) > 1:
                out = []
                for p, y in self.fork(self.in_atom(a["0"], b, st), st, ctx, node):
                    if p:
                        it = y.items.get((b, a["0"]))
                        val = it if it is not None and it != ("absent",) else ("key", b, a["0"])
                        self.emit(y, self.mk("delitem", None, b, ctx, node, y, None, {"key": a["0"]}))
                        y.items[(b, a["0"])] = ("absent",)
                        y.facts[("in", a["0"], b)] = False
                        out.append((val, y))
                    else:
                        out.append((args[1], y))
                return out
            self.emit(st, self.mk("delitem", None, b, ctx, node, st, None, {"key": a["0"]}))
            st.items[(b, a["0"])] = ("absent",)
            st.facts[("in", a["0"], b)] = False
            return [(v, st)]
        self.emit(st, self.mk("mutate", name, b, ctx, node, st, None, a))
        if b[0] == "vol" or self.is_volatile_path(b):
            self.bump_state(st, sid + "s")
        # membership and truth facts about the collection are no longer known
        st.facts = {f: v2 for f, v2 in st.facts.items() if not (f[0] in ("truth", "in", "exists") and T.mentions(f, b))}
        return [(v, st)]

    def is_volatile_path(self, b):
        return b[0] == "attr" and b[2] in self.VOLATILE

    def pure_method(self, b, name, args, kwargs, st, ctx, node):
        sb = self.snap(b, st)
        if name == "get" and args:
            k = self.snap(args[0], st)
            dflt = args[1] if len(args) > 1 else T.NONE
            out = []
            for p, y in self.fork(self.in_atom(k, sb, st), st, ctx, node):
                if p:
                    out.extend(self.get_item(sb, k, y, ctx, node))
                else:
                    out.append((dflt, y))
            return out
        if name in ("items", "values"):
            return [(("iterator", name, sb), st)]
        if name == "keys":
            return [(("dkeys", sb), st)]
        if name == "copy" and not args and not kwargs:
            return [(("copy", sb), st)]
        return [(self.pure_mcall(sb, name, args, kwargs, st), st)]

    # -------------------------------------------------------------- instances
    def instantiate(self, f, args, kwargs, st, ctx, node):
        c = self.prog.classes.get(f[1])
        if c is not None and any(b.split(".")[-1] in EXC_BUILTINS for b in c.ext_bases()):
            return [(("call", f[1], tuple(self.snap(a, st) for a in args), ()), st)]
        init = c.lookup("__init__") if c is not None else None
        a = self.named_args(init, "__init__", args, kwargs, st, True) if init is not None else {
            **{str(i): self.snap(x, st) for i, x in enumerate(args)}, **{k: self.snap(v, st) for k, v in kwargs}}
        sid = self.site(ctx, node)
        self.stale(st, sid)
        res = ("new", sid, f[1], tuple(sorted(a.items())))
        e = self.mk("new", f[1], None, ctx, node, st, None, a, res, init)
        e.refs = {k: v[1] for k, v in kwargs if k and isinstance(v, tuple) and v and v[0] == "ref"}
        self.emit(st, e)
        return [(res, st)]

    # -------------------------------------------------------------- library calls
    def ext_call(self, name, args, kwargs, st, ctx, node):
        if any(name.startswith(m) for m in NOOP_MODULES) or name in ("warnings.warn",):
            return [(T.NONE if not name.endswith("getLogger") else ("ext", "logging.logger"), st)]
        kw = dict(kwargs)
        if name == "functools.partial" and args:
            return [(("partial", args[0], tuple(args[1:]), tuple(kwargs)), st)]
        if name == "itertools.pairwise" or name.endswith(".pairwise"):
            return [(("iterator", "pairwise", args[0]), st)]
        if name in ("itertools.chain",):
            segs = ()
            for a in args:
                segs += self.as_segs(a, st)
            return [(self.alloc("list", segs, st, ctx, node), st)]
        if name in ("itertools.chain.from_iterable",):
            return self.flatten(args[0], st, ctx, node)
        if name in ("copy.copy", "copy.deepcopy"):
            shallow = (("str", "shallow"),) if name == "copy.copy" else ()
            return [(("copy", self.snap(args[0], st)) + shallow, st)] if args else [(T.NONE, st)]
        if name in ("operator.lt", "operator.le", "operator.gt", "operator.ge", "operator.eq", "operator.ne") \
                and len(args) == 2:
            return [(self.order_atom(name.split(".")[1], self.snap(args[0], st), self.snap(args[1], st)), st)]
        if name == "operator.attrgetter" or name == "operator.itemgetter":
            return [(("call", name, tuple(self.snap(a, st) for a in args), ()), st)]
        # simpy constructors are environment effects
        simp = {"simpy.Event": "event", "simpy.events.Event": "event", "simpy.Timeout": "timeout",
                "simpy.events.Timeout": "timeout", "simpy.AllOf": "all_of", "simpy.events.AllOf": "all_of",
                "simpy.AnyOf": "any_of", "simpy.events.AnyOf": "any_of", "simpy.Process": "process",
                "simpy.events.Process": "process"}
        if name in simp:
            kwargs = [(k, v) for k, v in kwargs if k != "env"]
            rest = args[1:] if args and "env" not in kw else args
            return self.opaque_call(None, simp[name], ENV, rest, kwargs, st, ctx, node)
        if self.is_effectful_ext(name) or name in self.EFFECTS:
            return self.opaque_call(None, name, None, args, kwargs, st, ctx, node)
        kwt = tuple(sorted((k, self.snap(v, st)) for k, v in kwargs))
        return [(("call", name, tuple(self.snap(a, st) for a in args), kwt), st)]

    def is_effectful_ext(self, name):
        root = name.split(".")[0]
        return root in ("os", "sys", "subprocess", "socket", "time", "random", "secrets") or name in (
            "uuid.uuid4", "uuid.uuid1") or name.startswith(("numpy.random", "datetime.datetime.now", "simpy."))

    # -------------------------------------------------------------- builtins
    def builtin(self, name, args, kwargs, st, ctx, node):
        kw = dict(kwargs)
        if name == "isinstance" and len(args) == 2:
            c = args[1]
            if c[0] == "ref":
                c = self.snap(c, st)
            return [(self.isinstance_atom(args[0], c, st), st)]
        if name == "hasattr" and len(args) == 2:
            return [(self.hasattr_atom(args[0], args[1], st), st)]
        if name == "callable" and args:
            if args[0][0] in ("closure", "bound", "func", "partial", "class"):
                return [(T.TRUE, st)]
            return [(("hasattr", self.snap(args[0], st), "__call__"), st)]
        if name == "getattr" and len(args) >= 2:
            return self.getattr_call(args, st, ctx, node)
        if name == "setattr" and len(args) == 3:
            nm = self.known_const(args[1], st)
            if nm is not None:
                return [(T.NONE, y) for y in self.set_attr(args[0], nm, args[2], st, ctx, node)]
            self.emit(st, self.mk("setattr", "?", self.snap(args[0], st), ctx, node, st, self.snap(args[2], st)))
            return [(T.NONE, st)]
        if name == "len" and args:
            return [(self.length(args[0], st), st)]
        if name in ("min", "max"):
            return self.minmax(name, args, kwargs, st, ctx, node)
        if name == "range":
            a = [self.snap(x, st) for x in args]
            lo, hi, step = (T.num(0), a[0], T.num(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else T.num(1))
            return [(("iterator", "range", lo, hi, step), st)]
        if name == "enumerate":
            start = args[1] if len(args) > 1 else kw.get("start", T.num(0))
            return [(("iterator", "enumerate", args[0], start), st)]
        if name == "zip":
            return [(("iterator", "zip", tuple(args)), st)]
        if name == "reversed" and args:
            return [(("iterator", "reversed", args[0]), st)]
        if name == "iter" and args:
            return [(args[0], st)]
        if name == "next" and args and node.args and isinstance(node.args[0], ast.Name):
            # a stateful iterator: another element at every call
            return [(("unk", self.site(ctx, node)), st)]
        if name == "map" and len(args) == 2:
            return self.map_call(args, st, ctx, node)
        if name in ("any", "all") and args:
            return self.any_all(name, args[0], st, ctx, node)
        if name == "sum" and args:
            return [(self.sum_of(args[0], st), st)]
        if name in ("list", "tuple", "set", "dict", "frozenset"):
            return self.convert(name, args, kwargs, st, ctx, node)
        if name == "sorted" and args:
            key = kw.get("key")
            kt = self.key_fn(key, st, ctx, node)
            return [(("sorted", self.snap(args[0], st), kt, self.snap(kw.get("reverse", T.FALSE), st)), st)]
        if name == "print":
            return [(T.NONE, st)]
        if name == "str" and len(args) == 1:
            if args[0][0] in ("str", "fstr"):
                return [(args[0], st)]
            return [(("call", "str", (self.snap(args[0], st),), ()), st)]
        if name == "float" and len(args) == 1 and args[0][0] in ("now", "num", "poly"):
            return [(args[0], st)]
        if name == "bool" and len(args) == 1:
            return [(self.truth(args[0], st), st)]
        if name == "abs" and len(args) == 1 and args[0][0] == "num":
            return [(("num", abs(args[0][1])), st)]
        if name in EXC_BUILTINS:
            return [(("call", name, tuple(self.snap(a, st) for a in args), ()), st)]
        if name == "super":
            return [(("super", None, ("param", "self")), st)]
        if name == "type" and len(args) == 1:
            return [(("call", "type", (self.snap(args[0], st),), ()), st)]
        if name == "next" and args:
            return [(("call", "next", tuple(self.snap(a, st) for a in args), ()), st)]
        if name in ("open", "input", "exec", "eval", "__import__"):
            return self.opaque_call(None, name, None, args, kwargs, st, ctx, node)
        kwt = tuple(sorted((k, self.snap(v, st)) for k, v in kwargs))
        return [(("call", name, tuple(self.snap(a, st) for a in args), kwt), st)]

    def key_fn(self, key, st, ctx, node):
        """Canonical form of a sort key: its value for a bound variable."""
        if key is None or key == T.NONE:
            return T.NONE
        if key[0] == "call" and key[1] == "operator.itemgetter" and len(key[2]) == 1:
            return ("key", ("bv",), key[2][0])
        if key[0] == "call" and key[1] == "operator.attrgetter" and len(key[2]) == 1 and key[2][0][0] == "str":
            return ("attr", ("bv",), key[2][0][1])
        self.mute += 1
        self.raise_sinks.append([])
        try:
            r = self.apply(key, [("bv",)], [], st.copy(), ctx, node)
        finally:
            self.raise_sinks.pop()
            self.mute -= 1
        return self.snap(r[0][0], r[0][1]) if len(r) == 1 else ("unk", "key")

    def hasattr_atom(self, b, name, st):
        nm = self.known_const(name, st)
        b = self.canon(b)
        sb = self.snap(b, st)
        if nm is None:
            return ("hasattr", sb, name)
        if (b, nm) in st.heap:
            return T.FALSE if st.heap[(b, nm)] == ("deleted",) else T.TRUE
        if b[0] == "super":
            _, cls, selfv = b
            dyn = self.types.get(selfv) or self.self_type or cls
            mro = self.prog.mro(dyn) if dyn else []
            i = mro.index(cls) if cls in mro else -1
            for q in mro[i + 1:]:
                c = self.prog.classes.get(q)
                if c is not None and nm in c.methods:
                    return T.TRUE
            return T.FALSE
        cls = self.type_of(b, st)
        if cls is not None:
            c = self.prog.classes.get(cls)
            if c and (c.lookup(nm) or c.lookup_const(nm)):
                return T.TRUE
        if b[0] in ("closure", "bound", "func", "partial") and nm == "__call__":
            return T.TRUE
        return ("hasattr", sb, nm)

    def getattr_call(self, args, st, ctx, node):
        b, n = args[0], args[1]
        if b[0] in ("module", "ext") and b[1] in ("operator", "_operator"):
            k = self.known_const(n, st)
            if k is not None:
                return [(("ext", f"operator.{k}"), st)]
            return [(("opname", self.snap(n, st)), st)]
        nm = self.known_const(n, st)
        if nm is None:
            return [(("call", "getattr", tuple(self.snap(a, st) for a in args), ()), st)]
        if len(args) == 2:
            return self.get_attr(b, nm, st, ctx, node)
        out = []
        for p, y in self.fork(self.hasattr_atom(b, n, st), st, ctx, node):
            if p:
                out.extend(self.get_attr(b, nm, y, ctx, node))
            else:
                out.append((args[2], y))
        return out

    def length(self, v, st):
        d = self.deref(v, st)
        if d is not None and all(s[0] in ("item", "kv") for s in d[1]):
            if d[0] in ("list", "tuple", "dict") or len(d[1]) <= 1:
                return T.num(len(d[1]))
        if d is not None and len(d[1]) == 1:
            s = d[1][0]
            if s[0] == "splat" and d[0] != "set":
                return ("len", s[1])
            if s[0] == "each" and not s[3] and s[2][0] in ("item", "kv") and d[0] == "list":
                return ("len", s[1])
        if isinstance(v, tuple) and v[0] == "str":
            return T.num(len(v[1]))
        return ("len", self.snap(v, st))

    def minmax(self, name, args, kwargs, st, ctx, node):
        if kwargs:
            return [(("call", name, tuple(self.snap(a, st) for a in args),
                      tuple(sorted((k, self.snap(v, st)) for k, v in kwargs))), st)]
        if len(args) == 1:
            d = self.deref(args[0], st)
            if d is None or not all(s[0] == "item" for s in d[1]) or not d[1]:
                return [(("call", name, (self.snap(args[0], st),), ()), st)]
            args = [s[1] for s in d[1]]
        flat = set()
        for a in args:
            a = self.snap(a, st)
            if a[0] == name:
                flat.update(a[1])
            else:
                flat.add(a)
        nums = [a for a in flat if a[0] == "num"]
        if len(nums) > 1:
            k = (min if name == "min" else max)(n[1] for n in nums)
            flat = {a for a in flat if a[0] != "num"} | {("num", k)}
        if len(flat) == 1:
            return [(next(iter(flat)), st)]
        return [((name, tuple(sorted(flat, key=T.tkey))), st)]

    def map_call(self, args, st, ctx, node):
        comp = ast.ListComp(elt=ast.Call(func=ast.Name(id="%f", ctx=ast.Load()),
                                         args=[ast.Name(id="%x", ctx=ast.Load())], keywords=[]),
                            generators=[ast.comprehension(target=ast.Name(id="%x", ctx=ast.Store()),
                                                          iter=ast.Name(id="%it", ctx=ast.Load()), ifs=[],
                                                          is_async=0)])
        for n in ast.walk(comp):
            if isinstance(n, (ast.expr,)):
                ast.copy_location(n, node)
        st.env[(ctx[1], "%f")] = args[0]
        st.env[(ctx[1], "%it")] = args[1]
        out = self.e_ListComp(comp, st, ctx)
        for _, y in out:
            for k in ("%f", "%it"):
                y.env.pop((ctx[1], k), None)
        return out

    def any_all(self, name, v, st, ctx, node):
        d = self.deref(v, st)
        if d is None:
            v = self.snap(v, st)
            at = ("exists", v, ("truth", ("bv",))) if name == "any" else T.bnot(("exists", v, T.bnot(("truth", ("bv",)))))
            return [(at, st)]
        atoms = []
        for s in d[1]:
            s = self.snap_seg(s, st)
            if s[0] == "item":
                t = self.truth(s[1], st)
                atoms.append(t if name == "any" else T.bnot(t))
            elif s[0] == "each" and s[2][0] == "item":
                t = self.truth(s[2][1], st)
                t = t if name == "any" else T.bnot(t)
                if s[3]:
                    t = ("conj", tuple(sorted(list(s[3]) + [t], key=T.tkey)))
                atoms.append(("exists", s[1], t))
            elif s[0] == "splat":
                t = ("truth", ("bv",))
                atoms.append(("exists", s[1], t if name == "any" else T.bnot(t)))
            else:
                atoms.append(("truth", ("unk", self.site(ctx, node))))
        if T.TRUE in atoms:
            r = T.TRUE
        else:
            atoms = [a for a in atoms if a != T.FALSE]
            r = T.FALSE if not atoms else atoms[0] if len(atoms) == 1 else ("disj", tuple(atoms))
        return [(r if name == "any" else T.bnot(r), st)]

    def sum_of(self, v, st):
        d = self.deref(v, st)
        if d is not None:
            tot = T.num(0)
            for s in d[1]:
                s = self.snap_seg(s, st)
                if s[0] == "item":
                    tot = T.add(tot, s[1])
                elif s[0] == "each" and s[2][0] == "item":
                    tot = T.add(tot, ("sum", ("filter", s[1], s[3]) if s[3] else s[1], s[2][1]))
                elif s[0] == "splat":
                    tot = T.add(tot, ("sum", s[1], ("bv",)))
                else:
                    tot = T.add(tot, ("sum", ("list", (s,)), ("bv",)))
            return tot
        return ("sum", self.snap(v, st), ("bv",))

    def convert(self, name, args, kwargs, st, ctx, node):
        if name == "dict":
            segs = ()
            if args:
                d = self.deref(args[0], st)
                if d is not None and d[0] == "dict":
                    segs = d[1]
                elif d is not None and all(s[0] == "item" and s[1][0] == "tuple" and len(s[1][1]) == 2 for s in d[1]):
                    for s in d[1]:
                        segs = self.dict_set(segs, s[1][1][0][1], s[1][1][1][1])
                elif d is not None and len(d[1]) == 1 and d[1][0][0] == "each" and d[1][0][2][0] == "item" and \
                        d[1][0][2][1][0] == "tuple" and len(d[1][0][2][1][1]) == 2 and all(
                            i[0] == "item" for i in d[1][0][2][1][1]):
                    s = d[1][0]
                    segs = (("each", s[1], ("kv", s[2][1][1][0][1], s[2][1][1][1][1])) + tuple(s[3:]),)
                elif args[0][0] == "iterator" and args[0][1] == "zip" and len(args[0][2]) == 2:
                    da, db = self.deref(args[0][2][0], st), self.deref(args[0][2][1], st)
                    if da and db and all(s[0] == "item" for s in da[1] + db[1]):
                        for a, b in zip(da[1], db[1]):
                            segs = self.dict_set(segs, a[1], b[1])
                    elif da and db and len(da[1]) == len(db[1]) == 1 and all(
                            s[0] == "each" and s[2][0] == "item" for s in da[1] + db[1]) and \
                            da[1][0][1] == db[1][0][1] and da[1][0][3:] == db[1][0][3:]:
                        a, b = da[1][0], db[1][0]
                        segs = (("each", a[1], ("kv", a[2][1], b[2][1])) + tuple(a[3:]),)
                    else:
                        segs = (("splat", self.snap(args[0], st)),)
                else:
                    segs = (("splat", self.snap(args[0], st)),)
            for k, v in kwargs:
                segs = segs + (("splat", self.snap(v, st)),) if k == "**" else self.dict_set(segs, ("str", k), v)
            return [(self.alloc("dict", segs, st, ctx, node), st)]
        kind = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "set"}[name]
        if not args:
            return [(("tuple", ()) if kind == "tuple" else self.alloc(kind, (), st, ctx, node), st)]
        v = args[0]
        if v[0] == "iterator":
            spec = self.spec_of(v, st)
            if spec[0] == "known":
                segs = tuple(("item", x) for x in spec[1])
            else:
                val, conds = spec[2](("it", "%"), "%")
                b = self.bind_elem(self.snap(val, st), spec[1], "%")
                segs = (self.each(spec[1], (("item", b),), ()),) if b is not None and not conds else (
                    ("splat", self.snap(v, st)),)
        else:
            segs = self.as_segs(v, st)
        if kind == "set":
            segs = self.dedup(segs, st)
            if any(s[0] in ("splat", "each") for s in segs) and not (len(segs) == 1 and segs[0][0] == "setof"):
                segs = tuple(s for s in segs)
        if kind == "tuple":
            return [(("tuple", tuple(segs)), st)]
        return [(self.alloc(kind, segs, st, ctx, node), st)]

    def flatten(self, v, st, ctx, node):
        d = self.deref(v, st)
        segs = ()
        if d is not None:
            for s in d[1]:
                if s[0] == "item":
                    segs += self.as_segs(s[1], st)
                elif s[0] == "each" and s[2][0] == "item":
                    segs += (("each", s[1], ("splat", self.snap(s[2][1], st)), s[3]),)
                else:
                    segs += (("splat", ("flat", self.snap(("list", (s,)), st))),)
        else:
            segs = (("splat", ("flat", self.snap(v, st))),)
        return [(self.alloc("list", segs, st, ctx, node), st)]

    # -------------------------------------------------------------- local collections
    def list_extend(self, v, w, st, ctx, node):
        kind, segs = st.objs[v[1]]
        st.objs[v[1]] = (kind, segs + tuple(self.as_segs(w, st)))
        return [st]

    def list_pop(self, v, k, st, ctx, node):
        """Remove and return element k of a local list."""
        kind, segs = st.objs[v[1]]
        if k[0] == "num" and all(s[0] == "item" for s in segs):
            i = int(k[1])
            if -len(segs) <= i < len(segs):
                l = list(segs)
                x = l.pop(i)
                st.objs[v[1]] = (kind, tuple(l))
                return x[1]
        if len(segs) == 1 and segs[0][0] in ("splat", "each"):
            s = segs[0]
            if s[0] == "splat":
                src, pat, conds = s[1], ("item", ("bv",)), ()
            else:
                src, pat, conds = s[1], s[2], s[3]
            if pat[0] == "item":
                el = self.elem(src, k, st) if k[0] != "num" else ("key", src, k)
                val = T.inst(pat[1], el)
                self.emit(st, self.mk("pop", None, src, ctx, node, st, el))
                st.objs[v[1]] = (kind, (("each", ("without", src, k), pat, conds),))
                return val
        st.objs[v[1]] = (kind, (("junk", "pop"),))
        return ("unk", self.site(ctx, node))

    def obj_method(self, v, name, args, kw, st, ctx, node):
        if v[0] in ("str", "fstr"):
            if name == "format" and v[0] == "str":
                parts, i, ok = [], 0, True
                chunks = v[1].split("{}")
                if len(chunks) == len(args) + 1:
                    parts.append(("str", chunks[0]))
                    for a, c in zip(args, chunks[1:]):
                        parts += [self.snap(a, st), ("str", c)]
                    return [(self.concat(tuple(parts)), st)]
            if name == "join" and args:
                d = self.deref(args[0], st)
                if d is not None and all(s[0] == "item" for s in d[1]):
                    parts = []
                    for i, s in enumerate(d[1]):
                        if i:
                            parts.append(v)
                        parts.append(s[1])
                    return [(self.concat(tuple(parts)), st)]
            if name == "endswith" and v[0] == "fstr" and args and args[0][0] == "str" and v[1][-1][0] == "str":
                return [(("bool", v[1][-1][1].endswith(args[0][1])), st)]
            return [(self.pure_mcall(v, name, args, list(kw.items()), st), st)]
        if v[0] != "ref":
            kind, segs = v[0], v[1]
        else:
            kind, segs = st.objs[v[1]]
        setc = (lambda c: st.objs.__setitem__(v[1], (kind, tuple(c)))) if v[0] == "ref" else (lambda c: None)
        if self.local_effects and v[0] == "ref" and name in LOCAL_CHANGES and not self.mute and not in_comprehension(node):
            self.emit(st, self.mk("local", name, ("obj", v[1]), ctx, node, st, None,
                                  {str(i): self.snap(a, st) for i, a in enumerate(args)}))
        if kind == "dict":
            return self.dict_method(v, segs, setc, name, args, kw, st, ctx, node)
        if name == "append" and args:
            setc(segs + (("item", args[0]),))
            if kind == "set":
                st.objs[v[1]] = (kind, self.dedup(st.objs[v[1]][1], st))
            return [(T.NONE, st)]
        if name == "add" and args:
            setc(self.dedup(segs + (("item", args[0]),), st))
            return [(T.NONE, st)]
        if name in ("extend", "update") and args:
            new = segs
            for a in args:
                new = new + tuple(self.as_segs(a, st)) if a[0] != "iterator" else new + (("splat", self.snap(a, st)),)
            setc(self.dedup(new, st) if kind == "set" else new)
            return [(T.NONE, st)]
        if name == "insert" and len(args) == 2:
            if args[0] == T.num(0):
                setc((("item", args[1]),) + segs)
            else:
                setc(segs + (("junk", "insert"),))
            return [(T.NONE, st)]
        if name == "pop":
            k = self.snap(args[0], st) if args else T.num(-1)
            return [(self.list_pop(v, k, st, ctx, node), st)]
        if name in ("remove", "discard") and args:
            x = self.snap(args[0], st)
            if ("item", args[0]) in segs and all(s[0] == "item" for s in segs):
                l = list(segs)
                l.remove(("item", args[0]))
                setc(l)
                return [(T.NONE, st)]
            if len(segs) == 1 and segs[0][0] in ("splat", "each"):
                s = segs[0]
                src, pat, conds = (s[1], ("item", ("bv",)), ()) if s[0] == "splat" else (s[1], s[2], s[3])
                self.emit(st, self.mk("pop", None, src, ctx, node, st, x))
                setc((("each", ("without", src, x), pat, conds),))
                return [(T.NONE, st)]
            setc((("junk", "remove"),))
            return [(T.NONE, st)]
        if name == "clear":
            setc(())
            return [(T.NONE, st)]
        if name == "copy":
            return [(self.alloc(kind, segs, st, ctx, node), st)]
        if name == "sort":
            if all(s[0] == "item" for s in segs) and len(segs) < 2:
                return [(T.NONE, st)]
            kt = self.key_fn(kw.get("key"), st, ctx, node)
            setc((("splat", ("sorted", self.snap(v, st), kt, self.snap(kw.get("reverse", T.FALSE), st))),))
            return [(T.NONE, st)]
        if name == "reverse":
            setc(tuple(reversed(segs)) if all(s[0] == "item" for s in segs) else (("junk", "reverse"),))
            return [(T.NONE, st)]
        return [(self.pure_mcall(self.snap(v, st), name, args, list(kw.items()), st), st)]

    def dict_method(self, v, segs, setc, name, args, kw, st, ctx, node):
        if name == "get" and args:
            k = self.snap(args[0], st)
            dflt = args[1] if len(args) > 1 else T.NONE
            for s in segs:
                if s[0] == "kv" and s[1] == k:
                    return [(s[2], st)]
            if all(s[0] == "kv" for s in segs):
                if (T.is_const(k) and all(T.is_const(s[1]) for s in segs)) or not segs:
                    return [(dflt, st)]
                if all(T.is_const(s[1]) for s in segs):
                    out, rest = [], st
                    for s in segs:
                        nxt = None
                        for bb, y in self.fork(T.eq(k, s[1]), rest, ctx, node):
                            if bb:
                                out.append((s[2], y))
                            else:
                                nxt = y
                        if nxt is None:
                            return out
                        rest = nxt
                    return out + [(dflt, rest)]
            return [(("dget", self.snap(v, st), k, self.snap(dflt, st)), st)]
        if name == "items":
            return [(("iterator", "items", v), st)]
        if name == "values":
            return [(("iterator", "values", v), st)]
        if name == "keys":
            if all(s[0] == "kv" for s in segs):
                return [(("list", tuple(("item", s[1]) for s in segs)), st)]
            return [(("dkeys", self.snap(v, st)), st)]
        if name == "copy":
            return [(self.alloc("dict", segs, st, ctx, node), st)]
        if name == "update":
            new = segs
            for a in args:
                d = self.deref(a, st)
                if d is not None and d[0] == "dict":
                    for s in d[1]:
                        new = self.dict_set(new, s[1], s[2]) if s[0] == "kv" else new + (s,)
                else:
                    new = new + (("splat", self.snap(a, st)),)
            for k, x in kw.items():
                new = new + (("splat", self.snap(x, st)),) if k == "**" else self.dict_set(new, ("str", k), x)
            setc(new)
            return [(T.NONE, st)]
        if name == "setdefault" and args:
            k = self.snap(args[0], st)
            for s in segs:
                if s[0] == "kv" and s[1] == k:
                    return [(s[2], st)]
            if all(s[0] == "kv" for s in segs) and (not segs or T.is_const(k) and all(T.is_const(s[1]) for s in segs)):
                x = args[1] if len(args) > 1 else T.NONE
                setc(self.dict_set(segs, k, x))
                return [(x, st)]
            setc(segs + (("junk", "setdefault"),))
            return [(("unk", self.site(ctx, node)), st)]
        if name == "pop" and args:
            k = self.snap(args[0], st)
            hit = [s for s in segs if s[0] == "kv" and s[1] == k]
            setc(tuple(s for s in segs if s not in hit))
            if hit:
                return [(hit[0][2], st)]
            if all(s[0] == "kv" for s in segs) and len(args) > 1:
                return [(args[1], st)]
            return [(("key", ("dict", segs), k), st)]
        if name == "clear":
            setc(())
            return [(T.NONE, st)]
        return [(self.pure_mcall(self.snap(v, st), name, args, list(kw.items()), st), st)]


class _FnStub:
    body = []
    lineno = 0
    col_offset = 0
    name = "<module>"
    decorator_list = []
    args = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def _has_closure(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return True
    return False
