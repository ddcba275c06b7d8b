"""Path-sensitive abstract interpreter producing an exploded effect graph.

The abstract state maps program variables, object attributes and local collections to
canonical terms (terms.py) and carries the branch conditions (facts) known to hold.
Loops are solved by a fixpoint over loop-head states: variables and collections that a
loop changes are summarised (counters, accumulators, each-element lists).  The result is a
graph whose edges are labelled with effects; rules are automata over that graph.
"""

import ast
import os
import sys

import terms as T
from live import live_at
from engine_call import CallMixin
from engine_expr import ExprMixin
from model import AnalysisBroken, Func, Program, contains_yield, mangle, next_loop

sys.setrecursionlimit(20000)

ENV = ("env",)


class TooBig(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "items", "objs", "facts", "now", "se", "node", "intry", "seen", "frames")

    def __init__(self):
        self.env = {}      # (frame, name) -> term
        self.heap = {}     # (base, attr) -> term
        self.items = {}    # (base, key) -> term | ("absent",)
        self.objs = {}     # ref id -> (kind, segs)
        self.facts = {}    # atom -> bool
        self.now = "E0"
        self.se = "S0"
        self.node = 0
        self.intry = 0
        self.seen = frozenset()
        self.frames = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.items = dict(self.items)
        s.objs = dict(self.objs)
        s.facts = dict(self.facts)
        s.now, s.se, s.node, s.intry, s.seen, s.frames = (
            self.now, self.se, self.node, self.intry, self.seen, self.frames)
        return s

    def key(self):
        return (
            frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.items.items()),
            frozenset(self.objs.items()), frozenset(self.facts.items()), self.now, self.se, self.intry, self.frames,
        )

    def map_terms(self, f):
        """Apply the term rewriting f to every component (f: term -> term, None drops)."""
        s = self
        s.env = {k: f(v) for k, v in s.env.items()}
        s.heap = {(f(b), a): f(v) for (b, a), v in s.heap.items()}
        s.items = {(f(b), f(k)): (v if v == ("absent",) else f(v)) for (b, k), v in s.items.items()}
        s.objs = {r: (k, f(("tmp", segs))[1]) for r, (k, segs) in s.objs.items()}
        nf = {}
        for a, v in s.facts.items():
            na = f(a)
            if na[0] == "bool":
                continue
            if na[0] == "not":
                na, v = na[1], not v
            nf[na] = v
        s.facts = nf


class Eff:
    """One effect of the program at one place, with what is known there."""

    __slots__ = ("kind", "name", "recv", "args", "res", "site", "where", "facts", "now", "se", "val", "func", "refs")

    def __init__(self, kind, name=None, recv=None, args=None, res=None, site=None, where=None, st=None, val=None,
                 func=None):
        self.kind, self.name, self.recv, self.args = kind, name, recv, dict(args or {})
        self.res, self.site, self.where, self.val, self.func = res, site, where, val, func
        self.refs = {}          # identities of the local collections given as arguments (new)
        if st is not None:
            self.facts, self.now, self.se = st.facts, st.now, st.se

    def arg(self, name, default=None):
        return self.args.get(name, default)

    def show(self):
        s = T.show
        loc = f"{self.where[0]}:{self.where[1]}" if self.where else "?"
        if self.kind in ("call", "yieldfrom", "new", "mutate", "super"):
            a = ", ".join(f"{k}={s(v)}" for k, v in self.args.items())
            r = (s(self.recv) + ".") if self.recv else ""
            t = f"{self.kind} {r}{self.name}({a})"
        elif self.kind == "setattr":
            t = f"{s(self.recv)}.{self.name} = {s(self.val)}"
        elif self.kind in ("setitem", "delitem"):
            t = f"{self.kind} {s(self.recv)}[{s(self.args['key'])}]" + (f" = {s(self.val)}" if self.val else "")
        elif self.kind == "assume":
            t = f"branch {s(self.recv)} is {self.val[1]}"
        elif self.kind in ("iter", "exhaust", "back", "break"):
            t = f"{self.kind} loop over {s(self.recv) if self.recv else '-'}"
        else:
            t = f"{self.kind} {s(self.val) if self.val else ''}"
        return f"{loc}: {t}"


class Graph:
    def __init__(self):
        self.out = [[]]
        self.exits = []      # (node, kind, value)
        self.grown = {}      # (loop, collection) -> what its iterations add
        self.steps = {}      # loop -> its iterations as transitions of the carried variables
        self.runs = {}       # loop -> the same for every time the loop was analysed

    def node(self):
        self.out.append([])
        return len(self.out) - 1

    def edge(self, a, eff, b):
        self.out[a].append((eff, b))

    def effects(self, kind=None, name=None):
        for es in self.out:
            for eff, _ in es:
                if eff is not None and (kind is None or eff.kind == kind) and (name is None or eff.name == name):
                    yield eff


class Violation(Exception):
    def __init__(self, msg, eff=None):
        self.msg, self.eff = msg, eff


class Undecided(Exception):
    def __init__(self, msg, eff=None):
        self.msg, self.eff = msg, eff


class Engine(CallMixin, ExprMixin):
    MAX_NODES = 120000
    MAX_DEPTH = 14
    dump_heads = None

    def __init__(self, prog, opaque, self_type=None, types=None, alias=None, transparent=()):
        self.prog = prog
        self.opaque = set(opaque) - set(transparent)
        self.types = dict(types or {})
        self.self_type = self_type
        self.alias = dict(alias or {})
        self.g = Graph()
        self.mute = 0
        self.local_effects = False     # also report changes of collections local to the analysed code
        self.raise_sinks = []
        self.callstrings = {}
        self.funcs_seen = set()
        self.unknowns = []
        self.gens = {}
        self.closures = {}
        self.lift = False
        self._bases = {}

    # ------------------------------------------------------------ entry points
    pinned = ()             # collections that existed before the calls and comprehensions at hand
    unrolled = ""           # which round of unrolled loops the interpretation is in
    want_steps = False      # record the iterations of loops as transitions (Graph.steps)
    sets = False            # a loop over the set of a collection is told from one over the collection
    frames = False          # columns set on local tables give new tables
    EFFECTS = frozenset()   # further library functions and methods whose calls are effects

    def run(self, func, bindings=None, self_term=("param", "self")):
        """Analyse func; bindings: parameter name -> term (default: symbolic parameter)."""
        st = State()
        self.entry = func
        frame = self.new_frame(func, None)
        st.frames = (func.qual,)
        bindings = bindings or {}
        for i, (n, d, kind) in enumerate(func.params()):
            if n in bindings:
                v = bindings[n]
            elif i == 0 and func.cls is not None and not func.is_static:
                v = self_term
            elif kind == "*":
                v = ("args", n)
            elif kind == "**":
                v = ("kwargs", n)
            else:
                v = ("param", n)
            st.env[(frame, n)] = v
        if self.self_type:
            self.types.setdefault(self_term, self.self_type)
        sink = []
        self.raise_sinks.append(sink)
        self.funcs_seen.add(func.qual)
        ctx = (func, frame)
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body)],
                          st, ctx)
        self.raise_sinks.pop()
        for kind, val, s in outs:
            v = self.snap(val, s) if kind == "return" and val is not None else T.NONE
            n = self.emit(s, Eff("return", val=v, where=self.where(ctx, func.node), st=s))
            self.g.exits.append((n, "return", v, s))
        for exc, s in sink:
            self.g.exits.append((s.node, "raise", exc, s))
        return self.g

    # ------------------------------------------------------------ infrastructure
    def new_frame(self, func, parent):
        cs = (parent, func.qual)
        return cs

    def frame_id(self, key):
        return self.callstrings.setdefault(key, len(self.callstrings))

    def site(self, ctx, node, extra=""):
        func, frame = ctx
        f = self.frame_id(frame)
        mod = func.module.relpath.rsplit("/", 1)[-1][:-3]
        return f"{mod}:{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}{extra}#{f}"

    def where(self, ctx, node):
        return (ctx[0].module.relpath, getattr(node, "lineno", 0), ctx[0].qual)

    def emit(self, st, eff):
        if self.mute:
            return st.node
        n = self.g.node()
        if n > self.MAX_NODES:
            raise TooBig(f"effect graph larger than {self.MAX_NODES} nodes")
        self.g.edge(st.node, eff, n)
        st.node = n
        if eff.kind in ("setitem", "delitem", "pop", "loop"):
            st.facts = dict(st.facts)      # later updates must not change what was known at the effect
        return n

    def stale(self, st, ident):
        """Values produced by an earlier execution of the same site become 'old' values."""
        if ident not in st.seen:
            st.seen = st.seen | {ident}
            return
        kinds = ("now", "obs", "res", "vol", "new")

        def is_id(t):
            return isinstance(t, tuple) and len(t) > 1 and t[0] in kinds and t[1] == ident

        def old(t):
            if not isinstance(t, tuple) or not t:
                return None
            if t[0] == "stale":
                return t
            if is_id(t):
                return ("stale", t)
            return None

        def has_old(t):
            return isinstance(t, tuple) and (
                (t and t[0] == "stale" and _has(t, is_id)) or any(has_old(c) for c in t if isinstance(c, tuple)))

        st.facts = {a: v for a, v in st.facts.items() if not has_old(a)}
        st.items = {k: v for k, v in st.items.items()
                    if not (_has(k[0], is_id) or _has(k[1], is_id))}
        st.heap = {k: v for k, v in st.heap.items() if not _has(k[0], is_id)}
        st.map_terms(lambda t: T.subst(t, old))

    def bump_time(self, st, ident):
        self.stale(st, ident)
        st.now = ident
        st.se = ident

    def bump_state(self, st, ident):
        self.stale(st, ident)
        st.se = ident

    def do_raise(self, st, exc, ctx, node):
        n = self.emit(st, Eff("raise", val=exc, where=self.where(ctx, node), st=st))
        self.raise_sinks[-1].append((exc, st))

    # ------------------------------------------------------------ snapshots
    def snap(self, v, st, depth=0):
        """Replace references to local collections by their present content."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "ref":
            if depth > 12:
                return ("deep",)
            kind, segs = st.objs.get(v[1], ("unk", ()))
            return (kind, tuple(self.snap(s, st, depth + 1) for s in segs))
        if v[0] in ("num", "str", "bool", "none", "param", "now", "env", "class", "ext", "closure"):
            return v
        if not _has(v, lambda t: t[0] == "ref" if t else False):
            return v
        return T.subst(v, lambda t: self.snap(t, st, depth + 1) if t and t[0] == "ref" else None)

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st, ctx):
        """Execute statements; returns [(kind, value, state)] with kind next/return/break/continue."""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for kind, val, y in self.stmt(s, x, ctx):
                    if kind == "next":
                        nxt.append(y)
                    else:
                        done.append((kind, val, y))
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [("next", None, x) for x in cur]

    def merge(self, states, force=False):
        if len(states) < 2:
            return states
        seen = {}
        out = []
        for s in states:
            k = s.key()
            if k in seen:
                if not self.mute and s.node != seen[k].node:
                    self.g.edge(s.node, None, seen[k].node)
                continue
            seen[k] = s
            out.append(s)
        if len(out) > 600:
            out = self.merge_facts(out)
        return out

    def merge_facts(self, states):
        groups = {}
        for s in states:
            f = s.facts
            s.facts = {}
            k = s.key()
            s.facts = f
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            h = g[0].copy()
            common = dict(g[0].facts)
            for s in g[1:]:
                common = {a: v for a, v in common.items() if s.facts.get(a) == v}
            h.facts = common
            if not self.mute:
                n = self.g.node()
                for s in g:
                    self.g.edge(s.node, None, n)
                h.node = n
            out.append(h)
        if len(out) > 8000:
            raise TooBig("too many abstract states")
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, s, st, ctx):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknowns.append((self.where(ctx, s), type(s).__name__))
            return [("next", None, st)]
        return m(s, st, ctx)

    def s_Pass(self, s, st, ctx):
        return [("next", None, st)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_ClassDef(self, s, st, ctx):
        st.env[(ctx[1], s.name)] = ("ext", f"local class {s.name}")
        return [("next", None, st)]

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return [("next", None, st)]
        return [("next", None, y) for _, y in self.ev(s.value, st, ctx)]

    def s_FunctionDef(self, s, st, ctx):
        f = Func(f"{ctx[0].qual}.{s.name}", s, ctx[0].module, ctx[0].cls)
        v = self.make_closure(f, ctx, st)
        st.env[(ctx[1], s.name)] = v
        return [("next", None, st)]

    def appended(self, s, st, ctx):
        """x = x + y and x = [*x, *y] of a list nothing else refers to are x += y."""
        t = s.targets[0]
        if len(s.targets) != 1 or not isinstance(t, ast.Name):
            return None
        v, more = s.value, None
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == t.id:
            more = v.right
        elif isinstance(v, ast.List) and len(v.elts) > 1 and isinstance(v.elts[0], ast.Starred) and isinstance(
                v.elts[0].value, ast.Name) and v.elts[0].value.id == t.id:
            more = ast.List(elts=v.elts[1:], ctx=ast.Load())
        if more is None or any(isinstance(n, ast.Name) and n.id == t.id for n in ast.walk(more)):
            return None
        r = st.env.get((ctx[1], t.id))
        if not (isinstance(r, tuple) and r[0] == "ref" and st.objs.get(r[1], ("",))[0] == "list"):
            return None

        def holds(x):
            return x == r or isinstance(x, tuple) and any(holds(y) for y in x)
        if sum(holds(x) for x in st.env.values()) != 1 or any(holds(x) for x in st.heap.values()) or any(
                holds(x) for x in st.items.values()) or any(holds(x) for x in st.objs.values()):
            return None
        n = ast.AugAssign(target=ast.Name(id=t.id, ctx=ast.Store()), op=ast.Add(), value=more)
        return ast.fix_missing_locations(ast.copy_location(n, s))

    def s_Assign(self, s, st, ctx):
        if isinstance(s.value, (ast.BinOp, ast.List)):
            n = self.appended(s, st, ctx)
            if n is not None:
                return self.s_AugAssign(n, st, ctx)
        out = []
        for v, y in self.ev(s.value, st, ctx):
            ys = [y]
            for t in s.targets:
                ys = [z for y2 in ys for z in self.assign(t, v, y2, ctx)]
            out.extend(("next", None, y2) for y2 in ys)
        return out

    def s_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [("next", None, st)]
        return [("next", None, z) for v, y in self.ev(s.value, st, ctx) for z in self.assign(s.target, v, y, ctx)]

    def s_AugAssign(self, s, st, ctx):
        load = ast.copy_location(_as_load(s.target), s)
        out = []
        for v, y in self.ev(load, st, ctx):
            for w, z in self.ev(s.value, y, ctx):
                if isinstance(s.op, ast.Add) and self.is_listy(v, z):
                    # in-place extension of a list
                    for z2 in self.list_extend(v, w, z, ctx, s):
                        out.append(("next", None, z2))
                    continue
                if isinstance(s.op, ast.BitOr) and isinstance(v, tuple) and v[0] == "ref" and z.objs[v[1]][0] == "dict":
                    for _, z2 in self.obj_method(v, "update", [w], {}, z, ctx, s):
                        out.append(("next", None, z2))
                    continue
                r = self.binop(s.op, v, w, z)
                for z2 in self.assign(s.target, r, z, ctx):
                    out.append(("next", None, z2))
        return out

    def assign(self, t, v, st, ctx):
        """Returns list of states."""
        if isinstance(t, ast.Name):
            st.env[(self.scope_of(t.id, ctx, st), t.id)] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for b, y in self.ev(t.value, st, ctx):
                out.extend(self.set_attr(b, self.mangled(t.attr, ctx), v, y, ctx, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, y in self.ev(t.value, st, ctx):
                for k, z in self.ev(t.slice, y, ctx):
                    out.extend(self.set_item(b, k, v, z, ctx, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ys = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    part = ("rest", v, i)
                    e = e.value
                elif star and i > star[0]:
                    part = self.unpack(v, i - n, n, st)
                else:
                    part = self.unpack(v, i, n, st)
                ys = [z for y in ys for z in self.assign(e, part, y, ctx)]
            return ys
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx)
        return [st]

    def scope_of(self, name, ctx, st):
        func, frame = ctx
        for d in getattr(func, "nonlocals", ()):
            pass
        return frame

    def mangled(self, attr, ctx):
        c = ctx[0].cls
        return mangle(attr, c.name) if c is not None else attr

    def unpack(self, v, i, n, st):
        if isinstance(v, tuple):
            if v[0] == "ref":
                kind, segs = st.objs[v[1]]
                if all(s[0] == "item" for s in segs) and -len(segs) <= i < len(segs):
                    return segs[i][1]
            if v[0] in ("tuple", "list") and all(s[0] == "item" for s in v[1]):
                if -len(v[1]) <= i < len(v[1]):
                    return v[1][i][1]
        return ("key", v, T.num(i))

    def set_attr(self, b, attr, v, st, ctx, node):
        b = self.canon(b)
        if b[0] == "ref" and b[1] in st.objs and st.objs[b[1]][0] == "inst":
            pass
        # property setters are executed
        cls = self.type_of(b, st)
        if cls is not None:
            c = self.prog.classes.get(cls)
            for q in (c.mro() if c else ()):
                cc = self.prog.classes.get(q)
                if cc and attr in cc.setters:
                    f = cc.setters[attr]
                    return [y for _, y in self.inline(f, [b, v], {}, st, ctx, node)]
        sv = self.snap(v, st)
        self.emit(st, Eff("setattr", attr, b, None, None, self.site(ctx, node), self.where(ctx, node), st, sv))
        if attr in self.VOLATILE:
            self.bump_state(st, self.site(ctx, node, "w"))
        st.heap[(b, attr)] = v
        return [st]

    def set_item(self, b, k, v, st, ctx, node):
        b = self.canon(b)
        k = self.snap(k, st)
        if b[0] == "ref":
            kind, segs = st.objs[b[1]]
            if kind == "dict":
                st.objs[b[1]] = ("dict", self.dict_set(segs, k, v))
                return [st]
            if kind == "list" and k[0] == "num" and all(s[0] == "item" for s in segs):
                i = int(k[1])
                if -len(segs) <= i < len(segs):
                    l = list(segs)
                    l[i] = ("item", v)
                    st.objs[b[1]] = ("list", tuple(l))
                    return [st]
            st.objs[b[1]] = (kind, segs + (("junk", "setitem"),))
            return [st]
        self.emit(st, Eff("setitem", None, b, {"key": k}, None, self.site(ctx, node), self.where(ctx, node), st,
                          self.snap(v, st)))
        if self.frames and self.local_frame(b, getattr(node, "value", None), st, ctx):
            new = ("setcol", self.snap(b, st), k, self.snap(v, st))
            st.env = {n: new if x == b else x for n, x in st.env.items()}
            return [st]
        if isinstance(v, tuple) and v[0] == "ref" and v[1] in st.objs and not st.objs[v[1]][1]:
            # a new empty collection handed over: from here on it is the foreign collection's entry
            place = ("key", b, k)
            st.env = {n: place if x == v else x for n, x in st.env.items()}
            st.items[(b, k)] = place
        else:
            st.items[(b, k)] = v
        st.facts[("in", k, b)] = True
        return [st]

    def local_frame(self, b, node, st, ctx):
        """Is b a table made by a library, in a local variable?"""
        return isinstance(node, ast.Name) and st.env.get((ctx[1], node.id)) == b and (
            b[0] in ("call", "mcall", "setcol", "res", "key") or self.is_lib(b))

    def s_Delete(self, s, st, ctx):
        ys = [st]
        for t in s.targets:
            nxt = []
            for y in ys:
                if isinstance(t, ast.Subscript):
                    for b, z in self.ev(t.value, y, ctx):
                        for k, w in self.ev(t.slice, z, ctx):
                            self.del_item(b, k, w, ctx, t)
                            nxt.append(w)
                elif isinstance(t, ast.Name):
                    y.env.pop((ctx[1], t.id), None)
                    nxt.append(y)
                elif isinstance(t, ast.Attribute):
                    for b, z in self.ev(t.value, y, ctx):
                        self.emit(z, Eff("setattr", t.attr, self.canon(b), None, None, self.site(ctx, t),
                                         self.where(ctx, t), z, ("deleted",)))
                        z.heap[(self.canon(b), t.attr)] = ("deleted",)
                        nxt.append(z)
                else:
                    nxt.append(y)
            ys = nxt
        return [("next", None, y) for y in ys]

    def del_item(self, b, k, st, ctx, node):
        b = self.canon(b)
        k = self.snap(k, st)
        if b[0] == "ref":
            kind, segs = st.objs[b[1]]
            if kind == "dict":
                st.objs[b[1]] = ("dict", tuple(s for s in segs if not (s[0] == "kv" and s[1] == k)))
            elif kind == "list":
                self.list_pop(b, k, st, ctx, node)
            return
        self.emit(st, Eff("delitem", None, b, {"key": k}, None, self.site(ctx, node), self.where(ctx, node), st))
        st.items[(b, k)] = ("absent",)
        st.facts[("in", k, b)] = False

    def s_Return(self, s, st, ctx):
        if s.value is None:
            return [("return", T.NONE, st)]
        return [("return", v, y) for v, y in self.ev(s.value, st, ctx)]

    def s_Break(self, s, st, ctx):
        return [("break", None, st)]

    def s_Continue(self, s, st, ctx):
        return [("continue", None, st)]

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            self.do_raise(st, st.env.get((ctx[1], "%exc"), ("exc", "reraise", ())), ctx, s)
            return []
        for v, y in self.ev(s.exc, st, ctx):
            self.do_raise(y, self.exc_term(v), ctx, s)
        return []

    def exc_term(self, v):
        if isinstance(v, tuple):
            if v[0] == "call" and isinstance(v[1], str):
                return ("exc", v[1].split(".")[-1], v[2])
            if v[0] in ("ext", "builtin"):
                return ("exc", v[1].split(".")[-1], ())
            if v[0] == "exc":
                return v
        return ("exc", "?", (v,))

    def s_Assert(self, s, st, ctx):
        out = []
        for b, y in self.cond(s.test, st, ctx):
            if b:
                out.append(("next", None, y))
            else:
                self.do_raise(y, ("exc", "AssertionError", ()), ctx, s)
        return out

    def s_If(self, s, st, ctx):
        out = []
        for b, y in self.cond(s.test, st, ctx):
            out.extend(self.block(s.body if b else s.orelse, y, ctx))
        return out

    def s_With(self, s, st, ctx):
        ys = [st]
        for item in s.items:
            nxt = []
            for y in ys:
                for v, z in self.ev(item.context_expr, y, ctx):
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, v, z, ctx))
                    else:
                        nxt.append(z)
            ys = nxt
        return [o for y in ys for o in self.block(s.body, y, ctx)]

    def s_Match(self, s, st, ctx):
        # desugar to an if-chain on the subject (value, or-, singleton, class and wildcard patterns)
        out = []
        for v, y in self.ev(s.subject, st, ctx):
            pend = [y]
            for case in s.cases:
                nxt = []
                for p in pend:
                    for b, z in self.match(case.pattern, v, p, ctx):
                        if b and case.guard is not None:
                            for b2, w in self.cond(case.guard, z, ctx):
                                if b2:
                                    out.extend(self.block(case.body, w, ctx))
                                else:
                                    nxt.append(w)
                        elif b:
                            out.extend(self.block(case.body, z, ctx))
                        else:
                            nxt.append(z)
                pend = nxt
            out.extend(("next", None, p) for p in pend)
        return out

    def match(self, pat, v, st, ctx):
        if isinstance(pat, ast.MatchValue):
            return [r for w, y in self.ev(pat.value, st, ctx) for r in self.fork(T.eq(v, w), y, ctx, pat)]
        if isinstance(pat, ast.MatchSingleton):
            return self.fork(T.eq(v, T.const(pat.value)), st, ctx, pat)
        if isinstance(pat, ast.MatchOr):
            out, pend = [], [st]
            for p in pat.patterns:
                nxt = []
                for s in pend:
                    for b, y in self.match(p, v, s, ctx):
                        (out if b else nxt).append((True, y) if b else y)
                pend = nxt
            return out + [(False, s) for s in pend]
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st.env[(ctx[1], pat.name)] = v
                return [(True, st)]
            return self.match(pat.pattern, v, st, ctx)
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            return [r for c, y in self.ev(pat.cls, st, ctx) for r in self.fork(self.isinstance_atom(v, c, y), y, ctx, pat)]
        return self.fork(("truth", ("unk", self.site(ctx, pat))), st, ctx, pat)

    def s_Try(self, s, st, ctx):
        sink = []
        self.raise_sinks.append(sink)
        st.intry += 1
        outs = self.block(s.body, st, ctx)
        self.raise_sinks.pop()
        res = []
        for kind, val, y in outs:
            y.intry -= 1
            if kind == "next" and s.orelse:
                res.extend(self.block(s.orelse, y, ctx))
            else:
                res.append((kind, val, y))
        fin = s.finalbody
        outer = []
        if fin:
            self.raise_sinks.append(outer)
        for exc, y in sink:
            y.intry -= 1
            handled = False
            for h in s.handlers:
                m = self.exc_matches(exc, h, ctx)
                if m:
                    z = y.copy()
                    self.emit(z, Eff("catch", val=exc, where=self.where(ctx, h), st=z))
                    if h.name:
                        z.env[(ctx[1], h.name)] = exc
                    z.env[(ctx[1], "%exc")] = exc
                    res.extend(self.block(h.body, z, ctx))
                    if m == "yes":
                        handled = True
                        break
            if not handled:
                self.raise_sinks[-1].append((exc, y))
        if fin:
            self.raise_sinks.pop()
            fin_res = []
            for kind, val, y in res:
                for k2, v2, z in self.block(fin, y, ctx):
                    fin_res.append((kind, val, z) if k2 == "next" else (k2, v2, z))
            for exc, y in outer:
                for k2, v2, z in self.block(fin, y, ctx):
                    if k2 == "next":
                        self.raise_sinks[-1].append((exc, z))
                    else:
                        fin_res.append((k2, v2, z))
            res = fin_res
        return res

    EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
                   "NotImplementedError": "RuntimeError"}

    def exc_matches(self, exc, h, ctx):
        if h.type is None:
            return "yes"
        names = []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            names.append(ast.unparse(t).split(".")[-1])
        if "BaseException" in names or "Exception" in names:
            return "yes"
        n = exc[1]
        if n in ("?", "any", "reraise"):
            return "maybe"
        while n:
            if n in names:
                return "yes"
            n = self.EXC_PARENTS.get(n)
        return None

    # ------------------------------------------------------------ loops
    def s_While(self, s, st, ctx):
        f = next_loop(s)
        if f is not None:
            return self.s_For(f, st, ctx)
        L = self.site(ctx, s)
        return self.loop(L, None, None, s, st, ctx)

    def s_For(self, s, st, ctx):
        # `for x in E: yield x` is `yield from E`
        if (len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield)
                and isinstance(s.target, ast.Name) and isinstance(s.body[0].value.value, ast.Name)
                and s.body[0].value.value.id == s.target.id and isinstance(s.iter, ast.Call)):
            e = ast.copy_location(ast.Expr(value=ast.copy_location(ast.YieldFrom(value=s.iter), s)), s)
            gen = [o for o in self.s_Expr(e, st, ctx)]
            return gen
        out = []
        if self.grows_itself(s, st, ctx):
            # work list: the body appends to the list it iterates
            for v, y in self.ev(s.iter, st, ctx):
                start = None
                if v[0] == "iterator" and v[1] == "enumerate":
                    start, v = v[3], v[2]
                d = self.deref(v, y)
                X = ("grow", (d[0], tuple(self.snap_seg(q, y) for q in d[1])) if d is not None else self.snap(v, y))

                def binder(it, L, X=X, start=start):
                    el = ("at", X, L, 0)
                    return (el if start is None else ("tuple", (("item", T.add(start, it)), ("item", el)))), ()
                out.extend(self.for_spec(s, ("loop", X, binder), y, ctx))
            return out
        for spec, y in self.iter_spec(s.iter, st, ctx):
            out.extend(self.for_spec(s, spec, y, ctx))
        return out

    def grows_itself(self, s, st, ctx):
        src = s.iter
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == "enumerate" and src.args:
            src = src.args[0]
        if not isinstance(src, ast.Name):
            return False
        v = st.env.get((ctx[1], src.id))
        names = {src.id} | ({k[1] for k, u in st.env.items() if k[0] == ctx[1] and u == v} if isinstance(v, tuple) and v[0] == "ref" else set())
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                    and n.value.id in names and n.attr in ("append", "extend", "insert", "pop", "remove"):
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
                return True
        return False

    def for_spec(self, s, spec, st, ctx):
        if spec[0] == "known":
            # literal collection: unrolled
            cur, done = [st], []
            outer = self.unrolled
            for k, v in enumerate(spec[1]):
                # an object made in one round is another one than that made in the next
                self.unrolled = f"{outer}~{k}" if k else outer
                nxt = []
                for x in cur:
                    for y in self.assign(s.target, v, x, ctx):
                        for kind, val, z in self.block(s.body, y, ctx):
                            if kind in ("next", "continue"):
                                nxt.append(z)
                            elif kind == "break":
                                done.append(("next", None, z))
                            else:
                                done.append((kind, val, z))
                cur = self.merge(nxt)
            self.unrolled = outer
            res = []
            for x in cur:
                res.extend(self.block(s.orelse, x, ctx) if s.orelse else [("next", None, x)])
            return res + done
        L = self.site(ctx, s)
        return self.loop(L, spec[1], spec[2], s, st, ctx)

    def loop(self, L, X, binder, s, st, ctx):
        """Fixpoint over loop-head states.

        X: source collection term (None for while loops); binder(it) -> element value for the target.
        """
        body, orelse = s.body, s.orelse
        self.stale_loop(st, L)
        plan = {}
        for _ in range(5):
            new = self.discover(L, X, binder, s, st, ctx, plan)
            if new == plan:
                break
            plan = new
        if X is not None and self.want_steps and self.mute == 0:
            self.steps(L, X, binder, s, st, ctx, plan)
        # ---- real run
        first = st.copy()
        self.generalise(first, plan, L, ("it", L), True)
        first.facts[T.eq0(("it", L))] = True
        self.emit(first, Eff("loop", None, X, None, None, L, self.where(ctx, s), first))
        heads = {}
        work = []
        exits = []       # (kind, val, state) leaving the loop
        drained = []     # states where the loop condition failed / source exhausted
        back_facts = []
        back_deltas = {}

        live = self.live_at(ctx[0], s)

        def push(h):
            if live is not None:
                h.env = {k: v for k, v in h.env.items() if k[0] != ctx[1] or k[1] in live}
            k = h.key()
            if k in heads:
                if not self.mute and h.node != heads[k].node:
                    self.g.edge(h.node, None, heads[k].node)
                return
            heads[k] = h
            work.append(h)

        push(first)
        n = 0
        while work:
            h = work.pop(0)
            n += 1
            if n > 60:
                raise TooBig(f"loop at {L} has too many head states")
            for b, y in self.loop_test(L, X, binder, s, h.copy(), ctx, n == 1):
                if not b:
                    drained.append(y)
                    continue
                for kind, val, z in self.block(body, y, ctx):
                    if kind == "break":
                        self.emit(z, Eff("break", None, X, None, None, L, self.where(ctx, s), z))
                        self.resolve_acc(z, plan, L, X, None)
                        exits.append(("next", None, z))
                    elif kind == "return":
                        exits.append((kind, val, z))
                    elif self.last_pass(X, s, z, ctx):
                        self.emit(z, Eff("exhaust", None, X, None, None, L, self.where(ctx, s), z))
                        self.resolve_acc(z, plan, L, X, None)
                        exits.extend(self.block(orelse, z, ctx) if orelse else [("next", None, z)])
                    else:
                        back_facts.append({a: v for a, v in z.facts.items() if self.about_elem(a, L)})
                        self.collect_deltas(z, plan, L, back_deltas)
                        self.emit(z, Eff("back", None, X, None, None, L, self.where(ctx, s), z))
                        self.shift(z, L, plan)
                        push(z)
        if self.dump_heads and not self.mute:
            self.dump_heads(L, heads)
        common = None
        for f in back_facts:
            common = dict(f) if common is None else {a: v for a, v in common.items() if f.get(a) == v}
        for d in drained:
            self.emit(d, Eff("exhaust", None, X, None, None, L, self.where(ctx, s), d))
            if X is not None and common:
                for a, v in common.items():
                    at = self.bind_elem(a, X, L)
                    if at is not None:
                        e = ("exists", X, at if not v else T.bnot(at))
                        d.facts[e] = False
            self.resolve_acc(d, plan, L, X, back_deltas)
            self.stale_loop(d, L, leaving=True)
            if orelse:
                exits.extend(self.block(orelse, d, ctx))
            else:
                exits.append(("next", None, d))
        nxt = self.merge([z for k, v, z in exits if k == "next"])
        return [e for e in exits if e[0] != "next"] + [("next", None, z) for z in nxt]

    @staticmethod
    def live_at(fn, loop):
        """The local variables that may be read from the head of the loop on"""
        node = getattr(fn, "node", None)
        return live_at(node, loop) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None

    def last_pass(self, X, s, z, ctx):
        """The test of a while loop on flags is known to fail after this iteration."""
        if X is not None or isinstance(s.test, ast.Constant) or any(
                not isinstance(n, (ast.Name, ast.UnaryOp, ast.BoolOp, ast.Not, ast.And, ast.Or, ast.Load, ast.Constant,
                                   ast.Compare, ast.cmpop)) for n in ast.walk(s.test)):
            return False
        self.mute += 1
        try:
            r = [b for b, y in self.cond(s.test, z.copy(), ctx)]
            return bool(r) and not any(r)
        finally:
            self.mute -= 1

    def loop_test(self, L, X, binder, s, h, ctx, first):
        """[(enters body?, state)]"""
        if X is None:
            return self.cond(s.test, h, ctx)
        out = []
        nonempty = None
        if first:
            nonempty = self.decide(T.truth(X), h)
        if nonempty is not True:
            d = h.copy()
            if first and T.truth(X)[0] != "bool":
                d = self.assume(T.truth(X), False, d)
            if d is not None:
                out.append((False, d))
        if nonempty is not False:
            e = h.copy()
            if first and T.truth(X)[0] != "bool":
                e = self.assume(T.truth(X), True, e)
            if e is not None:
                self.emit(e, Eff("iter", None, X, {"elem": ("at", X, L, 0), "it": ("it", L), "first": T.const(first)}, None, L, self.where(ctx, s), e))
                vals, conds = binder(("it", L), L)
                ok = True
                for a, v in conds:
                    e2 = self.assume(a, v, e)
                    if e2 is None:
                        ok = False
                        break
                    e = e2
                if ok:
                    for y in self.assign(s.target, vals, e, ctx):
                        out.append((True, y))
        return out

    # -- helpers of the loop solver
    def about_elem(self, a, L):
        return _has(a, lambda t: len(t) > 3 and t[0] == "at" and t[2] == L and t[3] == 0)

    def bind_elem(self, a, X, L):
        el = ("at", X, L, 0)
        if X[0] == "pairs":
            for i in (0, 1):
                a = T.replace(a, ("at", X[1], L, i), ("key", el, T.num(i)))
        r = T.bind(a, el)
        if _has(r, lambda t: len(t) > 2 and ((t[0] == "at" and t[2] == L) or (t[0] == "it" and t[1] == L))):
            return None
        return r

    def stale_loop(self, st, L, leaving=False):
        def is_l(t):
            return isinstance(t, tuple) and len(t) > 1 and (
                (t[0] == "at" and t[2] == L) or (t[0] in ("it", "acc", "cur") and t[1] == L))

        tag = "loop" + L
        if not leaving:
            if tag not in st.seen:
                st.seen = st.seen | {tag}
                return
        st.facts = {a: v for a, v in st.facts.items() if not _has(a, is_l)}
        if not leaving:
            st.items = {k: v for k, v in st.items.items() if not (_has(k[0], is_l) or _has(k[1], is_l))}
            st.heap = {k: v for k, v in st.heap.items() if not _has(k[0], is_l)}
            st.map_terms(lambda t: T.subst(t, lambda x: x if x and x[0] == "stale" else
                                           (("stale", x) if is_l(x) else None)))

    def discover(self, L, X, binder, s, st, ctx, plan):
        """Run the body once (muted) from a generalised head: which variables change, and how?"""
        self.mute += 1
        self.raise_sinks.append([])
        plan2 = {}
        try:
            head = st.copy()
            self.generalise(head, plan, L, ("it", L))
            backs = []
            for b, y in self.loop_test(L, X, binder, s, head.copy(), ctx, False):
                if not b:
                    continue
                for kind, val, z in self.block(s.body, y, ctx):
                    if kind in ("next", "continue") and not self.last_pass(X, s, z, ctx):
                        backs.append(z)
            for k, v in head.env.items():
                vals = [z.env.get(k) for z in backs]
                if any(w is not None and w != v for w in vals):
                    plan2[("env", k)] = self.classify(v, vals, L, plan.get(("env", k)), st.env.get(k))
                elif ("env", k) in plan:
                    plan2[("env", k)] = plan[("env", k)]
            for k, v in head.objs.items():
                vals = [z.objs.get(k) for z in backs]
                if any(w is not None and w != v for w in vals) or ("obj", k) in plan:
                    plan2[("obj", k)] = self.classify_obj(v, vals, L)
            self.chain_tags(head, backs, plan, plan2)
            for k, v in head.heap.items():
                vals = [z.heap.get(k) for z in backs]
                if any(w is not None and w != v for w in vals) or ("heap", k) in plan:
                    plan2[("heap", k)] = self.classify(v, vals, L, plan.get(("heap", k)), st.heap.get(k))
        finally:
            self.raise_sinks.pop()
            self.mute -= 1
        return plan2

    def steps(self, L, X, binder, s, st, ctx, plan):
        """For rules: one iteration as a transition, for loops whose variables carry values to later iterations.

        G.steps[L] = (X, initial values, [(facts, new values of the carried variables, what is appended to each list, how it ends)])"""
        carried = [k for (what, k), how in plan.items() if what == "env" and how[0] in ("other", "cursor")]
        if not self.want_steps or not any(what == "obj" and how[0] == "acc" for (what, k), how in plan.items()):
            return
        self.mute += 1
        self.raise_sinks.append([])
        try:
            head = st.copy()
            self.generalise(head, plan, L, ("it", L))
            for k in carried:
                head.env[k] = ("carry", L, k[1])
            out = []
            for b, y in self.loop_test(L, X, binder, s, head.copy(), ctx, False):
                if not b:
                    continue
                for kind, val, z in self.block(s.body, y, ctx):
                    added = {}
                    for (what, k), how in plan.items():
                        if what == "obj" and how[0] == "acc" and k in z.objs:
                            segs = z.objs[k][1]
                            i = next((i for i, g in enumerate(segs) if g == ("sofar", L, k)), None)
                            added[k] = None if i is None else tuple(self.snap_seg(g, z) for g in segs[i + 1:])
                    new = {k[1]: self.snap(z.env[k], z) if isinstance(z.env.get(k), tuple) else z.env.get(k) for k in carried}
                    facts = {a: v for a, v in z.facts.items() if head.facts.get(a) != v}
                    out.append((facts, new, added, kind))
            self.g.steps[L] = (X, {k[1]: st.env.get(k) for k in carried}, out)
            self.g.runs.setdefault(L, []).append(self.g.steps[L] + (dict(st.facts),))
        except TooBig:
            pass
        finally:
            self.raise_sinks.pop()
            self.mute -= 1

    def classify(self, v, vals, L, old, orig):
        """How a scalar changes in one iteration: counter (constant step), sum, or other."""
        if v is None or not isinstance(v, tuple):
            return ("other",)
        if isinstance(old, tuple) and old[0] in ("other", "cursor"):
            return old
        if v[0] in ("num", "poly") or (old and old[0] in ("counter", "sum")) or (
                v[0] in ("attr", "param", "len") and all(w is None or w == v or w[0] == "poly" for w in vals) and any(
                    w is not None and w != v for w in vals)):
            steps = set()
            for w in vals:
                if w is None:
                    continue
                d = T.sub(w, v) if w[0] not in ("str", "none", "bool", "ref", "list", "tuple", "dict") else None
                if d is None:
                    return ("other",)
                steps.add(d)
            if len(steps) == 1:
                d = next(iter(steps))
                if d[0] == "num":
                    return ("counter", d)
                if not T.mentions(d, v) or v[0] == "num":
                    if not _has(d, lambda t: t and t[0] == "acc" and t[1] == L):
                        return ("sum",)
            if steps and all(d[0] == "num" for d in steps):
                return ("cursor",)
        return ("other",)

    def classify_obj(self, v, vals, L):
        kind, segs = v
        if kind == "list" or kind == "set" or kind == "dict":
            for w in vals:
                if w is None or w == v:
                    continue
                if w[0] != kind or w[1][: len(segs)] != segs:
                    if kind == "list" and self.same_chain(segs, w[1]):
                        return ("chain",)
                    return ("other",)
            return ("acc",)
        return ("other",)

    def same_chain(self, a, b):
        """b is a with elements removed (pop)."""
        if len(a) != 1 or len(b) != 1 or a[0][0] != "each" or b[0][0] != "each":
            return False
        src = b[0][1]
        while isinstance(src, tuple) and src[0] == "without":
            src = src[1]
        return src == a[0][1] and a[0][2:] == b[0][2:]

    def chain_tags(self, head, backs, plan, plan2):
        """Lists of one source that lose the same elements in every iteration stay alike; others get names of their own."""
        def removed(z, k):
            out = []
            segs = z.objs[k][1] if k in z.objs else ()
            src = segs[0][1] if len(segs) == 1 and segs[0][0] == "each" else None
            while isinstance(src, tuple) and src[0] == "without":
                out.append(src[2])
                src = src[1]
            return tuple(out)

        leaders = []
        for x in sorted((x for x in plan2 if x[0] == "obj" and plan2[x][0] == "chain"), key=lambda x: repr(x[1])):
            k = x[1]
            old = plan.get(x, ("chain",))
            for i, l in enumerate(leaders):
                lold = plan.get(l, ("chain",))
                if head.objs[l[1]][1][0][1] == head.objs[k][1][0][1] and lold == old and all(
                        removed(z, k) == removed(z, l[1]) for z in backs):
                    plan2[x] = plan2[l]
                    break
            else:
                plan2[x] = ("chain", f"/{len(leaders)}") if leaders else ("chain",)
                leaders.append(x)

    def generalise(self, st, plan, L, it, first=False):
        for (what, k), how in plan.items():
            if what == "env":
                v = st.env.get(k)
                if v is None:
                    continue
                if how[0] == "counter":
                    st.env[k] = T.add(v, T.mul(how[1], it))
                elif how[0] == "cursor" and not first:
                    st.env[k] = ("cur", L, k[1])
                elif how[0] == "sum":
                    self._bases[("acc", L, ("env", k[1]))] = v
                    st.env[k] = T.add(v, ("acc", L, ("env", k[1])))
            elif what == "heap":
                v = st.heap.get(k)
                if v is None:
                    continue
                if how[0] == "counter":
                    st.heap[k] = T.add(v, T.mul(how[1], it))
                elif how[0] == "sum":
                    self._bases[("acc", L, ("heap", k))] = v
                    st.heap[k] = T.add(v, ("acc", L, ("heap", k)))
            elif what == "obj" and k in st.objs:
                kind, segs = st.objs[k]
                if how[0] == "acc":
                    st.objs[k] = (kind, segs + (("sofar", L, k),))
                elif how[0] == "chain":
                    e = segs[0]
                    src = e[1]
                    tag = L + how[1] if len(how) > 1 else L
                    if src[0] == "some" and src[2] == tag:
                        continue
                    if src[0] == "some" and src[2].split("/")[0] == L:
                        src = src[1]
                    st.objs[k] = (kind, (("each", ("some", src, tag)) + e[2:],))
                elif how[0] == "other":
                    pass

    def collect_deltas(self, z, plan, L, deltas):
        for (what, k), how in plan.items():
            if what == "obj" and how[0] == "acc" and k in z.objs:
                kind, segs = z.objs[k]
                i = next((i for i, s in enumerate(segs) if s == ("sofar", L, k)), None)
                if i is None:
                    deltas.setdefault((what, k), []).append(None)
                    continue
                d = tuple(self.snap_seg(s, z) for s in segs[i + 1:])
                deltas.setdefault((what, k), []).append((d, dict(z.facts)))
            elif how[0] == "sum":
                v = z.env.get(k) if what == "env" else z.heap.get(k)
                acc = ("acc", L, ("env", k[1]) if what == "env" else ("heap", k))
                deltas.setdefault((what, k), []).append((v, acc))

    def snap_seg(self, s, st):
        return tuple(self.snap(c, st) if isinstance(c, tuple) else c for c in s)

    def shift(self, z, L, plan):
        """A back edge: the present element becomes the previous one."""
        # undo accumulators
        for (what, k), how in plan.items():
            if what == "obj" and how[0] == "acc" and k in z.objs:
                kind, segs = z.objs[k]
                i = next((i for i, s in enumerate(segs) if s == ("sofar", L, k)), None)
                if i is not None:
                    z.objs[k] = (kind, segs[: i + 1])
            elif what == "obj" and how[0] == "chain" and k in z.objs:
                kind, segs = z.objs[k]
                if len(segs) == 1 and segs[0][0] == "each":
                    src = segs[0][1]
                    while src[0] == "without":
                        src = src[1]
                    tag = L + how[1] if len(how) > 1 else L
                    if src[0] == "some" and src[2] != tag and src[2].split("/")[0] == L:
                        src = src[1]
                    if src[0] != "some" or src[2] != tag:
                        src = ("some", src, tag)
                    z.objs[k] = (kind, (("each", src) + segs[0][2:],))
            elif what == "obj" and how[0] == "other" and k in z.objs:
                kind, segs = z.objs[k]
                if segs and segs[-1] != ("junk", L):
                    # keep short exact contents path-sensitive, widen longer ones
                    if len(segs) > 3:
                        z.objs[k] = (kind, (("junk", L),))
            elif how[0] == "sum":
                acc = ("acc", L, ("env", k[1]) if what == "env" else ("heap", k))
                d = z.env if what == "env" else z.heap
                v = d.get(k)
                if v is not None:
                    d[k] = T.add(self.plan_base(v, acc), acc)
        itt = ("it", L)

        def f(t):
            if not isinstance(t, tuple) or not t:
                return None
            if t[0] == "stale":
                return t
            if t[0] == "at" and t[2] == L:
                if t[3] <= -2:
                    return ("phi", L, "old")
                return ("at", T.subst(t[1], f), L, t[3] - 1)
            if t == itt:
                return T.sub(itt, T.num(1))
            return None

        facts = {}
        for a, v in z.facts.items():
            if _has(a, lambda t: len(t) > 1 and ((t[0] == "at" and t[2] == L) or t == itt
                                                 or (t[0] in ("acc", "cur") and t[1] == L))):
                continue
            facts[a] = v
        z.facts = facts
        z.heap = {k: v for k, v in z.heap.items()
                  if not _has(k[0], lambda t: t[0] == "at" and t[2] == L)}
        z.items = {k: v for k, v in z.items.items()
                   if not (_has(k[0], lambda t: t[0] == "at" and t[2] == L)
                           or _has(k[1], lambda t: t[0] == "at" and t[2] == L))}
        z.map_terms(lambda t: T.subst(t, f))
        # contents that grow round by round are given up
        for k, (kind, segs) in list(z.objs.items()):
            if _deeper(segs, 60):
                z.objs[k] = (kind, (("junk", L),))
        self.forget(z)
        z.facts[T.lt0(T.sub(itt, T.num(1)))] = False
        # widen variables that keep taking new values
        for (what, k), how in plan.items():
            if how[0] == "cursor" and what == "env" and k in z.env:
                z.env[k] = ("cur", L, k[1])
            if how[0] == "other" and what == "env" and k in z.env:
                v = z.env[k]
                if self.grows(v, L):
                    z.env[k] = ("phi", L, k[1])

    def forget(self, st):
        """Drop local collections nobody refers to and facts about results nobody holds."""
        live = set()

        def walk(t):
            if not isinstance(t, tuple) or not t or t in live:
                return
            live.add(t)
            if t[0] == "ref":
                o = st.objs.get(t[1])
                if o is not None:
                    walk(o)
                return
            for c in t:
                if isinstance(c, tuple):
                    walk(c)

        for v in st.env.values():
            walk(v)
        for k, v in st.heap.items():
            walk(k[0])
            walk(v)
        for k, v in st.items.items():
            walk(k[0])
            walk(v)
        pinned = [("ref", r) for p in self.pinned for r in p if r in st.objs and ("ref", r) not in live]
        for r in pinned:        # may be held by an expression that is being evaluated
            walk(r)
        st.objs = {r: o for r, o in st.objs.items() if ("ref", r) in live}

        def dead(t):
            return t[0] == "stale" or (t[0] in ("res", "obs", "vol", "new", "now") and t not in live)

        st.facts = {a: b for a, b in st.facts.items() if not _has(a, dead)}

    def grows(self, v, L):
        return _has(v, lambda t: t[0] == "phi" and t[1] == L and t[2] == "old") or _depth(v) > 14

    def plan_base(self, v, acc):
        """the part of polynomial v before accumulation (constant w.r.t. this loop) is 0-based:
        v = base + acc + delta; base is recovered from the plan at resolve time, here acc absorbs delta."""
        return self._bases.get(acc, T.num(0))

    def resolve_acc(self, d, plan, L, X, deltas):
        """Replace the running summaries by each-element / sum terms after the loop."""
        for (what, k), how in plan.items():
            if what == "obj" and how[0] == "acc" and k in d.objs:
                kind, segs = d.objs[k]
                i = next((i for i, s in enumerate(segs) if s == ("sofar", L, k)), None)
                if i is None:
                    continue
                if deltas is None:
                    repl = (("junk", L),)
                    # leaving by break: elements collected so far plus those of this iteration
                    d.objs[k] = (kind, segs[:i] + repl + segs[i + 1:])
                    continue
                rep = self.summary(deltas.get((what, k), []), X, L)
                if rep == (("junk", L),):
                    rep = (("junk", L, k),)
                self.g.grown[(L, k)] = (d.objs[k][0], self.either(deltas.get((what, k), []), X, L) if rep[:1] == (("junk", L, k),) else rep)
                d.objs[k] = (kind, segs[:i] + rep + segs[i + 1:])
            elif how[0] == "sum" and deltas is not None:
                acc = ("acc", L, ("env", k[1]) if what == "env" else ("heap", k))
                dd = d.env if what == "env" else d.heap
                ds = set()
                for v, a in deltas.get((what, k), []):
                    if v is None:
                        ds.add(None)
                        continue
                    base = self.plan_base(v, acc)
                    ds.add(T.sub(T.sub(v, base), acc))
                if len(ds) == 1 and None not in ds and X is not None:
                    de = next(iter(ds))
                    b = self.bind_elem(de, X, L)
                    val = ("sum", X, b) if b is not None else ("phi", L, str(k))
                else:
                    val = ("phi", L, str(k))
                for kk in list(dd):
                    if T.mentions(dd[kk], acc):
                        dd[kk] = T.replace(dd[kk], acc, val)

    def summary(self, deltas, X, L):
        """each-segment(s) for what the iterations appended."""
        if X is None or any(x is None for x in deltas):
            return (("junk", L),)
        alts = []
        for d, facts in deltas:
            fs = {a: v for a, v in facts.items() if self.about_elem(a, L)}
            if (d, fs) not in alts:
                alts.append((d, fs))
        ds = {d for d, _ in alts}
        if not alts:
            return ()
        if ds == {()}:
            return ()
        if len(ds) == 1:
            d = next(iter(ds))
            segs = self.bind_segs(d, X, L)
            if segs is None:
                return (("junk", L),)
            if not segs:
                return ()
            return (self.each(X, segs, ()),)
        # conditional append: one non-empty delta, characterise its condition
        nonempty = [x for x in ds if x != ()]
        if len(nonempty) == 1:
            d = nonempty[0]
            yes = [f for x, f in alts if x == d]
            no = [f for x, f in alts if x == ()]
            common = dict(yes[0])
            for f in yes[1:]:
                common = {a: v for a, v in common.items() if f.get(a) == v}
            # drop atoms that also hold in every 'no' alternative
            # (an atom no such alternative contradicts does not choose between them)
            conds = {a: v for a, v in common.items() if any(f.get(a) == (not v) for f in no)}
            conds = {a: v for a, v in conds.items()
                     if not (a[0] == "isnone" and not v and conds.get(("truth", a[1])) is True)}
            # the condition is exact if every 'no' alternative contradicts it
            exact = all(any(f.get(a) == (not v) for a, v in conds.items()) for f in no)
            segs = self.bind_segs(d, X, L)
            cs = []
            for a, v in conds.items():
                b = self.bind_elem(a, X, L)
                if b is None:
                    exact = False
                else:
                    cs.append(b if v else T.bnot(b))
            if segs is not None and exact:
                return (self.each(X, segs, tuple(sorted(cs, key=T.tkey))),)
            dnf = self.any_case(yes, no, X, L) if segs is not None else None
            if dnf is not None:
                return (self.each(X, segs, (dnf,)),)
        # one element each, of a value that depends on the case
        if nonempty and all(len(d) == 1 and d[0][0] in ("kv", "item") and d[0][:-1] == nonempty[0][0][:-1] for d in nonempty):
            no = [f for x, f in alts if x == ()]
            vals = []
            for d in sorted(nonempty, key=T.tkey):
                yes = [f for x, f in alts if x == d]
                seg = self.bind_elem(d[0], X, L)
                dnf = self.any_case(yes, [f for x, f in alts if x != d], X, L)
                if seg is None or dnf is None:
                    return (("junk", L),)
                vals.append((dnf, seg[-1]))
            dnf = self.any_case([f for x, f in alts if x != ()], no, X, L) if no else None
            if no and dnf is None:
                return (("junk", L),)
            return (self.each(X, (seg[:-1] + (("cases", tuple(vals)),),), (dnf,) if no else ()),)
        return (("junk", L),)

    def either(self, deltas, X, L):
        """What the iterations appended, by cases (for rules only: the collection itself stays unknown)"""
        if X is None or any(x is None for x in deltas):
            return (("junk", L),)
        for every in (False, True):
            alts = []
            for d, facts in deltas:
                a = (d, {a: v for a, v in facts.items() if every or self.about_elem(a, L)})
                if a not in alts:
                    alts.append(a)
            ds = sorted({d for d, _ in alts}, key=T.tkey)
            if len(ds) > 6:
                break
            out = []
            for d in ds:
                segs = self.bind_segs(d, X, L)
                dnf = self.any_case([f for x, f in alts if x == d], [f for x, f in alts if x != d], X, L)
                if segs is None or dnf is None:
                    break
                out.append((dnf, segs))
            else:
                return (("each", X, ("either", tuple(out)), ()),)
        return (("junk", L),)

    def any_case(self, yes, no, X, L):
        """Condition that holds in exactly one of the given cases, as a disjunction of literals."""
        if len(yes) > 24:
            return None
        for y in yes:
            for n in no:
                if not any(n.get(a) == (not v) for a, v in y.items()):
                    return None
        cases = []
        for y in yes:
            keep = {a: v for a, v in y.items() if any(n.get(a) == (not v) for n in no)
                    or any(o.get(a) == (not v) for o in yes)}
            cases.append(keep)
        changed = True
        while changed:
            changed = False
            for i, c in enumerate(cases):
                for a in list(c):
                    flip = {**c, a: not c[a]}
                    if any(j != i and all(flip.get(b) == v for b, v in o.items()) for j, o in enumerate(cases)):
                        del c[a]
                        changed = True
        out = set()
        for c in cases:
            lits = []
            for a, v in c.items():
                b = self.bind_elem(a, X, L)
                if b is None:
                    return None
                lits.append(b if v else T.bnot(b))
            out.add(tuple(sorted(lits, key=T.tkey)))
        return ("anyof", tuple(sorted(out, key=T.tkey)))

    def bind_segs(self, d, X, L):
        out = []
        for s in d:
            b = self.bind_elem(s, X, L)
            if b is None:
                return None
            out.append(b)
        return tuple(out)

    def each(self, X, segs, conds):
        seg = segs[0] if len(segs) == 1 else ("many", segs)
        if X[0] == "filter":
            X, conds = X[1], tuple(sorted(set(conds) | set(X[2]), key=T.tkey))
        if seg == ("item", ("bv",)) and not conds:
            return ("splat", X)
        return ("each", X, seg, conds)


def _has(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    for c in t:
        if isinstance(c, tuple) and _has(c, pred):
            return True
    return False


def _deeper(t, n):
    """Are tuples nested more than n deep in t?"""
    if n <= 0:
        return True
    return any(_deeper(c, n - 1) for c in t if isinstance(c, tuple))


def _depth(t):
    if not isinstance(t, tuple) or not t:
        return 0
    return 1 + max((_depth(c) for c in t if isinstance(c, tuple)), default=0)


def _as_load(t):
    import copy

    t2 = copy.deepcopy(t)
    for n in ast.walk(t2):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t2
