"""Live local names at loop heads (backward dataflow over the syntax tree)."""
import ast


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


class Liveness:
    def __init__(self, fn):
        self.at = {}
        self.always = set()
        for n in ast.walk(fn):
            if n is fn:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                self.always |= loads(n)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self.always |= loads(h)
                for s in n.finalbody:
                    self.always |= loads(s)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec"):
                self.everything = True
        self.block(fn.body, set(), set(), set())

    everything = False

    def block(self, stmts, out, brk, cont):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont)
        return out

    def defs(self, t):
        """names definitely assigned by a target, and names it uses"""
        if isinstance(t, ast.Name):
            return {t.id}, set()
        if isinstance(t, (ast.Tuple, ast.List)):
            d, u = set(), set()
            for x in t.elts:
                a, b = self.defs(x)
                d |= a
                u |= b
            return d, u
        if isinstance(t, ast.Starred):
            return self.defs(t.value)
        return set(), loads(t)

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, ast.While):
            exit_ = self.block(s.orelse, out, brk, cont)
            x = loads(s.test) | exit_
            while True:
                y = loads(s.test) | exit_ | self.block(s.body, x, out, x)
                if y == x:
                    break
                x = y
            self.at[id(s)] = x
            return x
        if isinstance(s, (ast.For, ast.AsyncFor)):
            exit_ = self.block(s.orelse, out, brk, cont)
            d, u = self.defs(s.target)
            x = exit_
            while True:
                y = exit_ | u | (self.block(s.body, x, out, x) - d)
                if y == x:
                    break
                x = y
            self.at[id(s)] = x
            return x | loads(s.iter)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads(s)
        if isinstance(s, ast.Assign):
            d, u = set(), set()
            for t in s.targets:
                a, b = self.defs(t)
                d |= a
                u |= b
            return (out - d) | u | loads(s.value)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            d, u = self.defs(s.target)
            return (out - d) | u | loads(s.value)
        if isinstance(s, ast.AugAssign):
            return out | loads(s) | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, (ast.With, ast.AsyncWith)):
            u = set()
            for i in s.items:
                u |= loads(i.context_expr)
            return u | self.block(s.body, out, brk, cont)
        if isinstance(s, ast.Try):
            o = self.block(s.finalbody, out, brk, cont) | out
            r = self.block(s.body, self.block(s.orelse, o, brk, cont), brk, cont)
            for h in s.handlers:
                r |= self.block(h.body, o, brk, cont)
            return r
        if isinstance(s, ast.Match):
            r = set(out) | loads(s.subject)
            for c in s.cases:
                r |= self.block(c.body, out, brk, cont) | loads(c)
            return r
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return out | loads(s)
        return out | loads(s)


def live_at(fn, loop):
    """live names at the head of the loop, or None when unknown"""
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    L = getattr(fn, "_liveness", None)
    if L is None:
        L = fn._liveness = Liveness(fn)
    if L.everything:
        return None
    a = L.at.get(id(loop))
    return None if a is None else a | L.always
