"""Mechanical behaviour-preserving rewritings of the library, to measure how quiet the checks stay.

refactor.py NAME SRC [file-substring[:function]]   rewrites the sources below SRC in place (only matching files / functions).
refactor.py -l                                      lists the rewritings.
"""
import ast
import copy
import keyword
import pathlib
import sys

ONLY = None


def wanted(fn):
    return ONLY is None or fn.name == ONLY


def is_gen(fn):
    for n in walk_fn(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_fn(fn):
    """Nodes of the function itself, nested functions and classes excluded."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


class Base(ast.NodeTransformer):
    """Function-wise transformer: fn() is applied to every (outermost first) function."""
    n = 0
    cls = None

    def visit_ClassDef(self, node):
        old, self.cls = self.cls, node
        node.body = self.flat(node.body)
        self.cls = old
        return node

    def flat(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        return self.fn(node) if wanted(node) else node

    def fn(self, node):
        node.body = self.block(node.body)
        return node

    def block(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if getattr(s, f, None) and isinstance(getattr(s, f), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.block(h.body)
            if isinstance(s, ast.FunctionDef):
                s = self.fn(s)
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return self.whole(out)

    def stmt(self, s):
        return s

    def whole(self, body):
        return body


class Plain(Base):
    pass


class RenameLocals(Base):
    def fn(self, node):
        ps = params(node)
        bound = set()
        for n in walk_fn(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                bound.add(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                ps |= set(n.names)
        bound -= ps
        for n in ast.walk(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                bound -= params(n) if isinstance(n, ast.FunctionDef) else {x.arg for x in n.args.args}
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in bound:
                n.id = "the_" + n.id
            if isinstance(n, ast.ExceptHandler) and n.name in bound:
                n.name = "the_" + n.name
        return node


class InvertIf(Base):
    def stmt(self, s):
        if isinstance(s, ast.If):
            if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(ast.Not(), s.test)
                return ast.If(t, s.orelse, s.body)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            v = s.value
            s.value = ast.IfExp(ast.UnaryOp(ast.Not(), v.test), v.orelse, v.body)
        return s


class ReturnTemp(Base):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
            return [ast.Assign([ast.Name("outcome", ast.Store())], s.value), ast.Return(ast.Name("outcome", ast.Load()))]
        return s


class ArgTemps(Base):
    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def hoist(self, call, pre):
        def one(e):
            if simple(e) and not isinstance(e, ast.Attribute) or isinstance(e, (ast.Starred, ast.Lambda, ast.GeneratorExp)):
                return e
            self.k += 1
            nm = f"arg_{self.k}"
            pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
            return ast.Name(nm, ast.Load())
        call.args = [one(a) for a in call.args]
        for kw in call.keywords:
            if kw.arg:
                kw.value = one(kw.value)

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)):
            v = s.value
            while isinstance(v, (ast.YieldFrom, ast.Yield)):
                v = v.value
            if isinstance(v, ast.Call) and not any(isinstance(x, ast.Name) and x.id in ("super",) for x in ast.walk(v)):
                pre = []
                self.hoist(v, pre)
                return pre + [s]
        return s


class EarlyReturn(Base):
    """if c: ...return / else: B  ->  if c: ...return; B"""

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            rest, s.orelse = s.orelse, []
            return [s] + rest
        return s


class ElseAfterReturn(Base):
    def whole(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and body[i + 1:]:
                s.orelse = self.whole(body[i + 1:])
                return body[:i + 1]
        return body


class CondTemp(Base):
    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, ast.If) and not simple(s.test):
            self.k += 1
            nm = f"condition_{self.k}"
            t, s.test = s.test, ast.Name(nm, ast.Load())
            return [ast.Assign([ast.Name(nm, ast.Store())], t), s]
        return s


class SwapCompare(Base):
    def fn(self, node):
        OP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        for n in ast.walk(node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OP:
                n.left, n.comparators = n.comparators[0], [n.left]
                n.ops = [OP[type(n.ops[0])]()]
        return node


class DeMorgan(Base):
    def neg(self, e):
        INV = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return e.operand
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in INV:
            return ast.Compare(e.left, [INV[type(e.ops[0])]()], e.comparators)
        return ast.UnaryOp(ast.Not(), e)

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            b = s.test
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(b.op, ast.And) else ast.And(), [self.neg(v) for v in b.values]))
        return s


class SplitAnd(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            first, rest = s.test.values[0], s.test.values[1:]
            return ast.If(first, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), s.body, [])], [])
        return s


class MergeIf(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        return s


class CompToLoop(Base):
    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and (
                isinstance(s, ast.Return) or len(s.targets) == 1):
            self.k += 1
            v = s.value
            nm = f"gathered_{self.k}"
            if isinstance(v, ast.ListComp):
                inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [v.elt], []))
                init = ast.List([], ast.Load())
            else:
                inner = ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), v.key, ast.Store())], v.value)
                init = ast.Dict([], [])
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    inner = ast.If(c, [inner], [])
                inner = ast.For(g.target, g.iter, [inner], [])
            s.value = ast.Name(nm, ast.Load())
            return [ast.Assign([ast.Name(nm, ast.Store())], init), inner, s]
        return s


class LoopToComp(Base):
    """xs = []; for x in it: [if c:] xs.append(e)  ->  xs = [e for x in it if c]"""

    def whole(self, body):
        i = 0
        while i + 1 < len(body):
            a, f = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(
                    a.value, ast.List) and not a.value.elts and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                b, conds = f.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    conds.append(b.test)
                    b = b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
                        b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and \
                        b.value.func.value.id == a.targets[0].id and not any(
                            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                    a.value = ast.ListComp(b.value.args[0], [ast.comprehension(f.target, f.iter, conds, 0)])
                    del body[i + 1]
            i += 1
        return body


class KwReorder(Base):
    def fn(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and len(n.keywords) > 1:
                names = [k for k in n.keywords if k.arg and not any(isinstance(x, ast.Call) for x in ast.walk(k.value))]
                if len(names) == len([k for k in n.keywords if k.arg]):
                    n.keywords = list(reversed(names)) + [k for k in n.keywords if not k.arg]
        return node


class SwapAssigns(Base):
    """Adjacent independent assignments of parameters / constants swap places."""

    def whole(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if self.ok(a) and self.ok(b) and ast.dump(a.targets[0]) != ast.dump(b.targets[0]) and not self.uses(a, b) and not self.uses(b, a):
                body[i], body[i + 1] = b, a
                i += 1
            i += 1
        return body

    def ok(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and simple(s.targets[0]) and (
            isinstance(s.value, (ast.Name, ast.Constant)) or isinstance(s.value, (ast.List, ast.Dict)) and not ast.dump(s.value).count("Name"))

    def uses(self, a, b):
        t = a.targets[0]
        key = t.id if isinstance(t, ast.Name) else t.attr
        return any(isinstance(x, ast.Name) and x.id == key or isinstance(x, ast.Attribute) and x.attr == key for x in ast.walk(b))


class InlineTemp(Base):
    """A name assigned once and used once, in the next statement: inlined."""

    def fn(self, node):
        self.node = node
        return super().fn(node)

    def whole(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(
                    b, (ast.Assign, ast.Expr, ast.Return)) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(a)):
                nm = a.targets[0].id
                uses = [x for x in ast.walk(self.node) if isinstance(x, ast.Name) and x.id == nm]
                here = [x for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                inside = any(isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.SetComp)) for x in ast.walk(b))
                first = self.first(b)
                if len(uses) == 2 and len(here) == 1 and not inside and (first is here[0] or simple(a.value) and not isinstance(a.value, ast.Attribute)):
                    here[0].__class__ = a.value.__class__
                    here[0].__dict__.clear()
                    here[0].__dict__.update(a.value.__dict__)
                    del body[i]
                    continue
            i += 1
        return body

    def first(self, b):
        """The name evaluated first in a statement, if simple to say."""
        e = b.value
        while True:
            if isinstance(e, (ast.YieldFrom, ast.Yield, ast.Attribute, ast.Starred, ast.UnaryOp, ast.Subscript)):
                e = e.value if not isinstance(e, ast.UnaryOp) else e.operand
            elif isinstance(e, ast.Call):
                e = e.args[0] if isinstance(e.func, ast.Name) and e.args else e.func
            elif isinstance(e, ast.BinOp):
                e = e.left
            elif isinstance(e, ast.Compare):
                e = e.left
            else:
                return e


class Reverse(Base):
    """The methods of every class in reverse order (properties with setters stay together)."""

    def visit_ClassDef(self, node):
        fns = [s for s in node.body if isinstance(s, ast.FunctionDef)]
        if any(d for f in fns for d in f.decorator_list if isinstance(d, ast.Attribute)):
            return node
        rest = [s for s in node.body if not isinstance(s, ast.FunctionDef)]
        node.body = rest + fns[::-1]
        return node


class SelfAlias(Base):
    """env = self.env at the top of every method that reads it and does not set it."""
    NAME = "env"

    def fn(self, node):
        if not node.args.args or node.args.args[0].arg != "self" or self.NAME in params(node):
            return node
        hits = [n for n in walk_fn(node) if isinstance(n, ast.Attribute) and n.attr == self.NAME and isinstance(
            n.value, ast.Name) and n.value.id == "self"]
        if len(hits) < 1 or any(isinstance(h.ctx, ast.Store) for h in hits) or any(
                isinstance(n, ast.Name) and n.id == self.NAME for n in ast.walk(node)) or node.name == "__init__":
            return node
        for h in hits:
            h.__class__ = ast.Name
            h.__dict__.clear()
            h.id, h.ctx = self.NAME, ast.Load()
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(k, ast.Assign([ast.Name(self.NAME, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), self.NAME, ast.Load())))
        return node


class TernaryToIf(Base):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return s


class IfToTernary(Base):
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 == len(b.targets) and ast.dump(
                    a.targets[0]) == ast.dump(b.targets[0]) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s


class AssertToRaise(Base):
    def stmt(self, s):
        if isinstance(s, ast.Assert):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(ast.Name("AssertionError", ast.Load()), [s.msg] if s.msg else [], []), None)], [])
        return s


class OldSuper(Base):
    def fn(self, node):
        if self.cls is not None and node.args.args:
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                    n.args = [ast.Name(self.cls.name, ast.Load()), ast.Name(node.args.args[0].arg, ast.Load())]
        return node


class ListLoop(Base):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute):
            s.iter = ast.Call(ast.Name("list", ast.Load()), [s.iter], [])
        return s


class IterLoop(Base):
    """for x in it  ->  explicit iterator with next() in a while loop"""

    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            self.k += 1
            nm = f"items_{self.k}"
            nxt = ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(nm, ast.Load())], []))],
                          [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
            return [ast.Assign([ast.Name(nm, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [s.iter], [])),
                    ast.While(ast.Constant(True), [nxt] + s.body, [])]
        return s


class WhileTrue(Base):
    """while c: B  ->  while True: if not c: break; B"""

    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
        return s


class AugExpand(Base):
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and simple(s.target) and not isinstance(s.value, (ast.List, ast.ListComp)):
            t = copy.deepcopy(s.target)
            for x in ast.walk(t):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            if "order" in ast.dump(s.target) or "list" in ast.dump(s.value):
                return s
            return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return s


class FormatStr(Base):
    def fn(self, node):
        class V(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                fmt, args = "", []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        fmt += v.value.replace("{", "{{").replace("}", "}}")
                    elif v.format_spec is None and v.conversion == -1:
                        fmt += "{}"
                        args.append(v.value)
                    else:
                        return n
                return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])
        return V().visit(node)


class LambdaToDef(Base):
    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        pre = []
        outer = self
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
            class V(ast.NodeTransformer):
                def visit_ListComp(self, n):
                    return n
                visit_GeneratorExp = visit_DictComp = visit_ListComp

                def visit_Lambda(self, n):
                    outer.k += 1
                    nm = f"function_{outer.k}"
                    pre.append(ast.FunctionDef(nm, n.args, [ast.Return(n.body)], [], None, None, lineno=1))
                    return ast.Name(nm, ast.Load())
            s = V().visit(s)
        return pre + [s]


class Extract(Base):
    """The tail of every method (from the middle on) becomes a method of its own."""
    FRACTION = 0.5

    def visit_ClassDef(self, node):
        self.extra = []
        node = super().visit_ClassDef(node)
        node.body += self.extra
        return node

    def fn(self, node):
        if self.cls is None or not node.args.args or node.args.args[0].arg != "self" or node.decorator_list or node.name.startswith(
                "__") and node.name != "__init__":
            return node
        body = node.body
        k0 = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        k = max(k0 + 1, int(len(body) * self.FRACTION))
        head, tail = body[:k], body[k:]
        if not tail or any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for s in tail for x in ast.walk(s)):
            return node
        bound_head = params(node) | {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for s in head:
            if isinstance(s, ast.FunctionDef):
                bound_head.add(s.name)
            if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(s)):
                return node
        used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
        # names that are possibly unbound in the head
        sure = params(node)
        for s in head:
            if isinstance(s, ast.Assign):
                sure |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            if isinstance(s, ast.FunctionDef):
                sure.add(s.name)
            if isinstance(s, ast.If) and s.orelse:
                def b(ss):
                    return {x.id for q in ss for x in ast.walk(q) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                sure |= b(s.body) & b(s.orelse)
        need = sorted((used & bound_head) - {"self"})
        if not set(need) <= sure:
            return node
        tail_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in tail for x in ast.walk(s))
        gen = is_gen(node)
        if gen and not tail_gen:
            call_gen = False
        else:
            call_gen = tail_gen
        if gen and tail_gen and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in head for x in ast.walk(s)):
            pass
        nm = f"_rest_of_{node.name.strip('_')}_{self.cls.name.lower()}"
        new = ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None, None, lineno=1)
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        e = ast.YieldFrom(call) if call_gen else call
        node.body = head + [ast.Return(e)]
        self.extra.append(new)
        return node


class ExtractFirst(Extract):
    FRACTION = 0.3


class ExtractLast(Extract):
    FRACTION = 0.8


class ExtractBody(Base):
    """The body of every for loop of a method becomes a method of its own (no break/continue/return, no names assigned)."""

    def visit_ClassDef(self, node):
        self.extra = []
        node = super().visit_ClassDef(node)
        node.body += self.extra
        return node

    def fn(self, node):
        self.fnnode = node
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if not isinstance(s, ast.For) or self.cls is None or not self.fnnode.args.args or self.fnnode.args.args[0].arg != "self":
            return s
        bad = (ast.Break, ast.Continue, ast.Return, ast.FunctionDef, ast.Import, ast.ImportFrom)
        if any(isinstance(x, bad) or isinstance(x, ast.Name) and x.id == "super" for b in s.body for x in ast.walk(b)):
            return s
        stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        inside = {id(x) for b in s.body for x in ast.walk(b)}
        outside = {x.id for x in ast.walk(self.fnnode) if isinstance(x, ast.Name) and id(x) not in inside}
        if stored & outside:
            return s
        fnlocals = params(self.fnnode) | {x.id for x in ast.walk(self.fnnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
            x.name for x in ast.walk(self.fnnode) if isinstance(x, ast.FunctionDef)}
        used = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        need = sorted((used & fnlocals) - stored - {"self"})
        first_bound = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        self.k += 1
        nm = f"_one_of_{self.fnnode.name.strip('_')}_{self.cls.name.lower()}_{self.k}"
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in s.body for x in ast.walk(b))
        self.extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in need], None, [], [], None, []), s.body, [], None, None, lineno=1))
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        s.body = [ast.Expr(ast.YieldFrom(call) if gen else call)]
        return s


class ModuleHelper(Base):
    """Every if-condition that only reads attributes and names becomes a call of a module-level predicate."""

    def __init__(self):
        self.extra = []
        self.k = 0

    def fn(self, node):
        self.fnnode = node
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, ast.If) and not simple(s.test):
            if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(s.test)) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(s.test)):
                return s
            names = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
            fnlocals = params(self.fnnode) | {x.id for x in ast.walk(self.fnnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            need = sorted(names & fnlocals)
            self.k += 1
            nm = f"_test_{self.k}"
            self.extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(s.test)], [], None, None, lineno=1))
            s.test = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        return s


class NoOp(Base):
    def fn(self, node):
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node = super().fn(node)
        node.body.insert(k, ast.Pass())
        return node


class DocDrop(Base):
    def fn(self, node):
        if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            node.body = node.body[1:] or [ast.Pass()]
        return node


class Positional(Base):
    """dict(a=1) literals instead of {'a': 1} and the other way round; {} / [] as dict() / list()."""

    def fn(self, node):
        class V(ast.NodeTransformer):
            def visit_Dict(self, n):
                self.generic_visit(n)
                if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and not keyword.iskeyword(k.value) for k in n.keys):
                    return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
                if not n.keys:
                    return ast.Call(ast.Name("dict", ast.Load()), [], [])
                return n

            def visit_List(self, n):
                self.generic_visit(n)
                if not n.elts and isinstance(n.ctx, ast.Load):
                    return ast.Call(ast.Name("list", ast.Load()), [], [])
                return n
        node.body = [V().visit(s) for s in node.body]
        return node


class TryElse(Base):
    """Statements of a for loop guarded by an if (whole body) use continue instead."""

    def stmt(self, s):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            i = s.body[0]
            s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return s


class Enumerate(Base):
    """for x in xs -> for _i, x in enumerate(xs)"""

    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("enumerate", "range")):
            self.k += 1
            s.target = ast.Tuple([ast.Name(f"position_{self.k}", ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
        return s


class IndexLoop(Base):
    """for x in self.xs -> for i in range(len(self.xs)): x = self.xs[i] (attributes whose name is a plural, names excluded)"""
    LISTS = {"sub_processes", "requested_resources_list", "resources"}

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute) and s.iter.attr in self.LISTS and isinstance(s.target, ast.Name):
            it = s.iter
            s.body.insert(0, ast.Assign([s.target], ast.Subscript(it, ast.Name("position", ast.Load()), ast.Load())))
            s.target = ast.Name("position", ast.Store())
            s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(it)], [])], [])
        return s


class AnyAll(Base):
    """any/all over generators/list comprehensions as list comprehensions inside any/all"""

    def fn(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "sum", "max", "min", "list", "tuple") and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, ast.GeneratorExp):
                    n.args = [ast.ListComp(a.elt, a.generators)]
                elif isinstance(a, ast.ListComp):
                    n.args = [ast.GeneratorExp(a.elt, a.generators)]
        return node


class GetAttr(Base):
    """The local function object: f = self.method; f(...) for plain calls of methods of self in expression statements."""

    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, (ast.Call, ast.YieldFrom)):
            c = s.value if isinstance(s.value, ast.Call) else s.value.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and simple(c.func.value):
                f = c.func
                c.func = ast.Name("step_function", ast.Load())
                return [ast.Assign([ast.Name("step_function", ast.Store())], f), s]
        return s


class IndexWhile(Base):
    """for x in self.xs / a local list -> counted while loop"""

    def fn(self, node):
        self.k = 0
        return super().fn(node)

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Attribute) and s.iter.attr in IndexLoop.LISTS and not s.orelse:
            self.k += 1
            i = f"index_{self.k}"
            ld, sto = ast.Name(i, ast.Load()), ast.Name(i, ast.Store())
            return [ast.Assign([sto], ast.Constant(0)),
                    ast.While(ast.Compare(ld, [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [s.iter], [])]),
                              [ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), ld, ast.Load())), ast.AugAssign(sto, ast.Add(), ast.Constant(1))] + s.body, [])]
        return s


class ReturnHelper(Base):
    """Returned and assigned expressions of methods become methods of their own."""
    KINDS = (ast.Return, ast.Assign)

    def visit_ClassDef(self, node):
        self.extra, self.k = [], 0
        node = super().visit_ClassDef(node)
        node.body += self.extra
        return node

    def fn(self, node):
        old = getattr(self, "fnnode", None)
        self.fnnode = node
        node = super().fn(node)
        self.fnnode = old
        return node

    def stmt(self, s):
        if not isinstance(s, self.KINDS) or s.value is None or simple(s.value) or self.cls is None or not self.fnnode.args.args or \
                self.fnnode.args.args[0].arg != "self" or self.fnnode.name.startswith("__") and self.fnnode.name != "__init__":
            return s
        v = s.value
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(v)):
            return s
        if isinstance(v, (ast.List, ast.Dict, ast.Constant)):
            return s
        inner = {x.id for c in ast.walk(v) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        loc = params(self.fnnode) | {x.id for x in ast.walk(self.fnnode) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
            x.name for x in ast.walk(self.fnnode) if isinstance(x, ast.FunctionDef)} | {
                (a.asname or a.name).split(".")[0] for x in ast.walk(self.fnnode) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        need = sorted(({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & loc) - inner - {"self"})
        self.k += 1
        nm = f"_value_{self.cls.name.lower()}_{self.k}"
        self.extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(v)], [], None, None, lineno=1))
        s.value = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        return s


class ReturnHelperKw(ReturnHelper):
    """The same with keyword arguments."""

    def stmt(self, s):
        r = super().stmt(s)
        if r.__class__ in self.KINDS and isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Attribute) and r.value.func.attr.startswith("_value_"):
            r.value.keywords = [ast.keyword(a.id, a) for a in r.value.args]
            r.value.args = []
        return r


class StaticHelper(ReturnHelper):
    """Expressions that do not mention self become static methods."""

    def stmt(self, s):
        if isinstance(s, self.KINDS) and s.value is not None and any(isinstance(x, ast.Name) and x.id == "self" for x in ast.walk(s.value)):
            return s
        r = super().stmt(s)
        if isinstance(r, self.KINDS) and isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Attribute) and r.value.func.attr.startswith("_value_"):
            d = self.extra[-1]
            if d.name == r.value.func.attr:
                d.args.args = d.args.args[1:]
                d.decorator_list = [ast.Name("staticmethod", ast.Load())]
        return r


class Walrus(Base):
    """x = e; if <x first>: -> if (x := e)..."""

    def whole(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.If) and \
                    not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(a)):
                t, nm = b.test, a.targets[0].id
                w = ast.NamedExpr(ast.Name(nm, ast.Store()), a.value)
                if isinstance(t, ast.Name) and t.id == nm:
                    b.test = w
                elif isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == nm:
                    t.left = w
                else:
                    i += 1
                    continue
                del body[i]
                continue
            i += 1
        return body


class UnpackArgs(Base):
    """Calls with several keyword arguments take them from a dictionary: f(**{...})"""

    def fn(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
                n.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))]
        return node


class GuardClause(Base):
    """def f: ...; if c: B (last statement, no else) -> if not c: return; B"""

    def fn(self, node):
        node = super().fn(node)
        s = node.body[-1]
        if isinstance(s, ast.If) and not s.orelse:
            node.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        return node


class CompareChain(Base):
    """a <= b and b <= c -> a <= b <= c, x is None or y -> not (x is not None and not y) is DeMorgan; len(x) == 0 -> not x"""

    def fn(self, node):
        class V(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                t = n.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and \
                        t.left.func.id == "len" and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
                    n.test = ast.UnaryOp(ast.Not(), t.left) if isinstance(t.ops[0], ast.Eq) else t.left if isinstance(t.ops[0], (ast.Gt, ast.NotEq)) else t
                return n
        return V().visit(node)


class AssertSplit(Base):
    """assert a and b -> assert a; assert b"""

    def stmt(self, s):
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            return [ast.Assert(v, s.msg) for v in s.test.values]
        return s


class NestedFn(Base):
    """The body of every ordinary (non-generator) method moves into a nested function that is called at once."""

    def fn(self, node):
        if is_gen(node) or node.decorator_list or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(node)) or node.name == "__init__":
            return node
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        stored = {x.id for x in walk_fn(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if stored & params(node) or not node.body[k:]:
            return node
        inner = ast.FunctionDef("work", ast.arguments([], [], None, [], [], None, []), node.body[k:], [], None, None, lineno=1)
        node.body[k:] = [inner, ast.Return(ast.Call(ast.Name("work", ast.Load()), [], []))]
        return node


class TypeHints(Base):
    """Annotated assignments."""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name,)) and not any(
                isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(s)):
            return ast.AnnAssign(s.targets[0], ast.Constant("object"), s.value, 1)
        return s


class ExceptAs(Base):
    """try bodies: last statement after the protected call moves to else when it cannot raise (plain return/assign of a name)."""

    def stmt(self, s):
        if isinstance(s, ast.Try) and not s.orelse and len(s.body) > 1 and isinstance(s.body[-1], (ast.Assign, ast.Return)) and s.body[-1].value is not None and isinstance(
                s.body[-1].value, (ast.Name, ast.Constant)):
            s.orelse = [s.body.pop()]
        return s


class Logging(Base):
    """A debug message at the top of every function of modules that have a logger; elsewhere a local docstring-like constant."""

    def fn(self, node):
        node = super().fn(node)
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        imp = ast.Import([ast.alias("logging")])
        call = ast.Expr(ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name("logging", ast.Load()), "getLogger", ast.Load()), [ast.Constant("openclsim")], []), "debug", ast.Load()),
                                 [ast.Constant("in " + node.name)], []))
        node.body[k:k] = [imp, call]
        return node


ALL = {k.__name__: k for k in list(globals().values()) if isinstance(k, type) and issubclass(k, Base) and k is not Base}


def run(name, src, only=None):
    global ONLY
    sub, ONLY = (only.split(":") + [None])[:2] if only else ("", None)
    n = 0
    for p in sorted(pathlib.Path(src).rglob("*.py")):
        if sub and sub not in str(p):
            continue
        text = p.read_text()
        tree = ast.parse(text)
        before = ast.unparse(tree)
        t = ALL[name]()
        tree.body = t.flat(tree.body)
        if getattr(t, "extra", None) and name == "ModuleHelper":
            k = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
            tree.body[k:k] = t.extra
        ast.fix_missing_locations(tree)
        out = ast.unparse(tree)
        if out != before or name == "Plain":
            n += 1
            p.write_text(out + "\n")
    return n


if __name__ == "__main__":
    if sys.argv[1] == "-l":
        print(*sorted(ALL))
    else:
        print(run(*sys.argv[1:]))
