"""Reaching definitions of local names in one function: which definitions are never used.

Structured forward analysis: name -> set of definitions that may reach a point.  A use marks every definition that reaches it.
Loops are iterated to a fixpoint, handlers see every state of the try block, closures use every definition of a name.
"""
import ast


class Live:
    def __init__(self, fn):
        self.fn = fn
        self.defs = []  # (name, statement, value)
        self.key = {}
        self.used = set()
        self.loops = []
        inner = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        shared = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.free = inner | shared
        self.exits = []
        self.block(fn.body, {})
        self.dead = [d for i, d in enumerate(self.defs) if i not in self.used and d[0] not in self.free]

    def define(self, st, name, stmt, value):
        k = (name, id(stmt))
        if k not in self.key:
            self.key[k] = len(self.defs)
            self.defs.append((name, stmt, value))
        st[name] = frozenset([self.key[k]])

    def use(self, st, e):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.used |= st.get(n.id, frozenset())
            if isinstance(n, ast.NamedExpr):
                self.define(st, n.target.id, n, n.value)

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = {}
        for s in sts:
            for k, v in s.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def target(self, st, t, stmt, value):
        if isinstance(t, ast.Name):
            self.define(st, t.id, stmt, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                self.target(st, x, x if isinstance(x, ast.Name) else stmt, v)
        elif isinstance(t, ast.Starred):
            self.target(st, t.value, stmt, None)
        else:
            self.use(st, t)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def loop(self, s, st, head):
        out = dict(st)
        brk = []
        for _ in range(4):
            cur = dict(out)
            head(cur)
            self.loops.append(([], []))
            end = self.block(s.body, cur)
            b, c = self.loops.pop()
            brk += b
            new = self.join(out, end, *c)
            if new == out:
                break
            out = new
        if s.orelse:
            out = self.block(s.orelse, dict(out))
        return self.join(out, *brk)

    def stmt(self, s, st):
        st = dict(st)
        if isinstance(s, ast.Assign):
            self.use(st, s.value)
            for t in s.targets:
                self.target(st, t, s, s.value)
        elif isinstance(s, ast.AugAssign):
            self.use(st, s.value)
            if isinstance(s.target, ast.Name):
                self.used |= st.get(s.target.id, frozenset())
                self.define(st, s.target.id, s, None)
            else:
                self.use(st, s.target)
        elif isinstance(s, ast.AnnAssign):
            self.use(st, s.value)
            if s.value is not None:
                self.target(st, s.target, s, s.value)
        elif isinstance(s, ast.Return):
            self.use(st, s.value)
            return None
        elif isinstance(s, ast.Raise):
            self.use(st, s.exc)
            self.use(st, s.cause)
            self.exits.append(st)
            return None
        elif isinstance(s, ast.If):
            self.use(st, s.test)
            return self.join(self.block(s.body, dict(st)), self.block(s.orelse, dict(st)))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(st, s.iter)
            return self.loop(s, st, lambda c: self.target(c, s.target, s, None))
        elif isinstance(s, ast.While):
            return self.loop(s, st, lambda c: self.use(c, s.test))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.use(st, it.context_expr)
                if it.optional_vars is not None:
                    self.target(st, it.optional_vars, s, None)
            return self.block(s.body, st)
        elif isinstance(s, ast.Try):
            seen = dict(st)
            cur = dict(st)
            for b in s.body:
                if cur is None:
                    break
                cur = self.stmt(b, cur)
                seen = self.join(seen, cur)
                for n in ast.walk(b):  # definitions inside a compound statement may be interrupted
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        ids = frozenset(i for i, d in enumerate(self.defs) if d[0] == n.id)
                        seen[n.id] = seen.get(n.id, frozenset()) | ids
            outs = [self.block(s.orelse, dict(cur)) if cur is not None else None]
            for h in s.handlers:
                hs = dict(seen)
                self.use(hs, h.type)
                outs.append(self.block(h.body, hs))
            out = self.join(*outs)
            if s.finalbody:
                self.block(s.finalbody, self.join(seen, out))
                out = self.block(s.finalbody, dict(out)) if out is not None else None
            return out
        elif isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        elif isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1].append(st)
            return None
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        elif isinstance(s, ast.Delete):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.use(st, c)
        return st
