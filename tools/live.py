"""Which local variables may still be read at the head of a loop (backward analysis over the syntax tree of a function)"""

import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def reads(node):
    """Names that the evaluation of the node may read; of nested functions all that they mention"""
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


class Live:
    def __init__(self, fn):
        self.heads = {}
        self.always = set()
        for n in ast.walk(fn):
            if isinstance(n, FUNCS) and n is not fn:
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec"):
                self.always |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
        self.brk, self.cont = [], []
        self.block(fn.body if isinstance(fn.body, list) else [], frozenset())

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def target(self, t, out):
        """Before an assignment to t"""
        if isinstance(t, ast.Name):
            return out - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                out = self.target(x, out)
            return out
        return out | reads(t)

    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out = self.target(t, out)
            return out | reads(s.value)
        if isinstance(s, ast.AnnAssign):
            return (self.target(s.target, out) | reads(s.value)) if s.value is not None else out
        if isinstance(s, (ast.Return, ast.Raise)):
            return frozenset().union(*(reads(x) for x in ast.iter_child_nodes(s)))
        if isinstance(s, ast.Break):
            return self.brk[-1] if self.brk else out
        if isinstance(s, ast.Continue):
            return self.cont[-1] if self.cont else out
        if isinstance(s, ast.If):
            return self.block(s.body, out) | self.block(s.orelse, out) | reads(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            done = self.block(s.orelse, out)
            head = done
            while True:
                self.brk.append(out)
                self.cont.append(head)
                inner = self.block(s.body, head)
                self.brk.pop()
                self.cont.pop()
                new = head | done | (inner | reads(s.test) if isinstance(s, ast.While) else self.target(s.target, inner))
                if new == head:
                    break
                head = new
            self.heads[id(s)] = head
            return head if isinstance(s, ast.While) else head | reads(s.iter)
        if isinstance(s, ast.With):
            return self.block(s.body, out) | frozenset().union(*(reads(i.context_expr) for i in s.items))
        if isinstance(s, (ast.Try, *([ast.TryStar] if hasattr(ast, "TryStar") else []))):
            # whatever the statement mentions may be read, on any way through it; what handlers read, from anywhere
            out = out | (self.brk[-1] if self.brk else frozenset()) | (self.cont[-1] if self.cont else frozenset())
            for h in [*s.handlers, *s.finalbody]:
                self.always |= reads(h)
            for x in (s.body, *[h.body for h in s.handlers], s.orelse, s.finalbody):
                self.block(x, out | reads(s))
            return out | reads(s)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | reads(s)
        return out | reads(s)


def live_at(fn, loop, cache={}):
    """The variables that may be read from the head of the loop on.  None if the loop is not one of the function"""
    if id(fn) not in cache:
        cache[id(fn)] = (fn, Live(fn))
    lv = cache[id(fn)][1]
    live = lv.heads.get(id(loop))
    return None if live is None else live | lv.always
