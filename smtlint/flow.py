"""Which local names are certainly bound at each use, and which functions may end without the result they promise.

A forward dataflow analysis over the statements of one function.  A state is a small set of alternatives (bound names, known
facts about conditions); conditions that occur again with the same operands are correlated, so that
"if c: x = ..." followed by "if c: use(x)" is understood.  Facts die when a name they mention is assigned.
"""
import ast
import re

MAXALT = 24
# training starts with the training data (SurrogateModel.train reads it first), whatever the table of points is called
ALWAYS = re.compile(r"^0 in [\w.]+\[None\]$")
EMPTY = frozenset()


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def txt(n):
    return ast.unparse(n)


class Alt:
    """one alternative: bound names and facts {text: (bool, names)}"""

    __slots__ = ("bound", "facts")

    def __init__(self, bound=EMPTY, facts=None):
        self.bound, self.facts = bound, facts or {}

    def key(self):
        return self.bound, frozenset((k, v[0]) for k, v in self.facts.items())

    def with_fact(self, t, b, nm):
        f = dict(self.facts)
        f[t] = (b, nm)
        return Alt(self.bound, f)

    def bind(self, names):
        names = frozenset(names)
        f = {k: v for k, v in self.facts.items() if not (v[1] & names)}
        return Alt(self.bound | names, f)

    def unbind(self, names):
        names = frozenset(names)
        return Alt(self.bound - names, {k: v for k, v in self.facts.items() if not (v[1] & names)})

    def kill_attr(self, t):
        f = {k: v for k, v in self.facts.items() if t not in k}
        return self if len(f) == len(self.facts) else Alt(self.bound, f)


def excluded(a, t, v):
    if v is OTHER:
        return any(k.startswith("isinstance(%s," % t) and b is False for k, (b, _) in a.facts.items())
    for k in ("%s == %r" % (t, v), "%s is %r" % (t, v)) if v is None or isinstance(v, bool) else ("%s == %r" % (t, v),):
        if a.facts.get(k, (None,))[0] is False:
            return True
    for k, (b, _) in a.facts.items():
        if not b and k.startswith(t + " in "):
            try:
                if v in ast.literal_eval(k[len(t) + 4:]):
                    return True
            except Exception:
                pass
    return v is None and a.facts.get(t, (None,))[0] is True


def feasible(a, values):
    """not all admissible values of an expression are excluded"""
    for t, (vals, nm) in values.items():
        if all(excluded(a, t, v) for v in vals):
            return False
    return True


def norm(alts):
    out = {}
    for a in alts:
        out[a.key()] = a
    alts = list(out.values())
    if len(alts) > MAXALT:
        # forget facts first, then intersect
        by = {}
        for a in alts:
            by.setdefault(a.bound, []).append(a)
        res = []
        for b, l in by.items():
            f = dict(l[0].facts)
            for a in l[1:]:
                f = {k: v for k, v in f.items() if k in a.facts and a.facts[k][0] == v[0]}
            res.append(Alt(b, f))
        if len(res) > MAXALT:
            b = frozenset.intersection(*[a.bound for a in res])
            f = dict(res[0].facts)
            for a in res[1:]:
                f = {k: v for k, v in f.items() if k in a.facts and a.facts[k][0] == v[0]}
            res = [Alt(b, f)]
        alts = res
    return alts


def atoms(test):
    """(text, polarity, node) of an atomic condition, in a normal form"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        t, p, n = atoms(test.operand)
        return t, not p, n
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, op, r = test.left, test.ops[0], test.comparators[0]
        if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn, ast.GtE, ast.Gt)):
            inv = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}[type(op)]
            return txt(ast.Compare(l, [inv()], [r])), False, test
    return txt(test), True, test


def decide(alt, test):
    """True / False / None"""
    if isinstance(test, ast.Constant):
        return bool(test.value)
    if isinstance(test, ast.BoolOp):
        vs = [decide(alt, v) for v in test.values]
        if isinstance(test.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = decide(alt, test.operand)
        return None if v is None else not v
    t, p, n = atoms(test)
    if t in alt.facts:
        return alt.facts[t][0] == p
    if ALWAYS.match(t):
        return p
    # x == 'a' known true excludes x == 'b'
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        l = txt(n.left)
        for k, (b, _) in alt.facts.items():
            if b and k.startswith(l + " == ") and k != t:
                try:
                    other = ast.literal_eval(k[len(l) + 4:])
                except Exception:
                    continue
                if other != n.comparators[0].value or other is not n.comparators[0].value and n.comparators[0].value is None:
                    return False == p
    return None


def assume(alts, test, want):
    """alternatives in which the test has the value"""
    out = []
    for a in alts:
        v = decide(a, test)
        if v is not None:
            if v == want:
                out.append(a)
            continue
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            out += assume([a], test.operand, not want)
        elif isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == want:
                cur = [a]
                for v in test.values:
                    cur = assume(cur, v, want)
                out += cur
            else:
                # one operand decides it: split
                cur = [a]
                for v in test.values:
                    out += assume(cur, v, want)
                    cur = assume(cur, v, not want)
                # the operands taken together stay a fact of their own
        else:
            t, p, n = atoms(test)
            pure = not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(test))
            out.append(a.with_fact(t, p == want, frozenset(names_in(test))) if pure else a)
    return norm(out)


class Exits:
    def __init__(self):
        self.brk, self.cont = [], []


class Flow:
    def __init__(self, fi, values=None):
        self.values = values or {}  # text of an expression -> (admissible values, names it depends on)
        self.fi = fi
        self.fn = fi.node
        self.problems = []  # (node, name)
        self.ends = []  # alternatives that fall off the end
        self.returns = []
        self.raise_only = True
        self.locals = self._locals()
        self.seen = set()
        self.uses = 0
        self.runs = True  # loops over data run at least once

    def _locals(self):
        out, glob = set(), set()
        a = self.fn.args

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    out.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for al in c.names:
                        out.add((al.asname or al.name).split(".")[0])
                walk(c)

        body = self.fn.body if isinstance(self.fn.body, list) else [self.fn.body]
        for s in body:
            walk(ast.Module([s], []))
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        return (out | self.params) - glob

    # -- expressions
    def use(self, alts, e, skip=frozenset()):
        """report uses of names that some alternative leaves unbound; short-circuit operators and conditional expressions are followed"""
        if e is None or not alts:
            return alts
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in skip:
                self.uses += 1
                if any(e.id not in a.bound for a in alts) and id(e) not in self.seen:
                    self.seen.add(id(e))
                    self.problems.append((e, e.id))
                    return norm([Alt(a.bound | {e.id}, a.facts) for a in alts])
                return norm([Alt(a.bound | {e.id}, a.facts) for a in alts]) if any(e.id not in a.bound for a in alts) else alts
            return alts
        if isinstance(e, ast.BoolOp):
            cur = alts
            done = []
            for v in e.values:
                cur = self.use(cur, v, skip)
                done.append(assume(cur, v, isinstance(e.op, ast.Or)))
                cur = assume(cur, v, isinstance(e.op, ast.And))
                if not cur:
                    break
            return alts
        if isinstance(e, ast.IfExp):
            self.use(alts, e.test, skip)
            self.use(assume(alts, e.test, True), e.body, skip)
            self.use(assume(alts, e.test, False), e.orelse, skip)
            return alts
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sk = set(skip)
            for g in e.generators:
                self.use(alts, g.iter, frozenset(sk))
                sk |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.use(alts, c, frozenset(sk))
            if isinstance(e, ast.DictComp):
                self.use(alts, e.key, frozenset(sk))
                self.use(alts, e.value, frozenset(sk))
            else:
                self.use(alts, e.elt, frozenset(sk))
            return alts
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.use(alts, d, skip)
            return alts
        if isinstance(e, ast.NamedExpr):
            self.use(alts, e.value, skip)
            return [a.bind([e.target.id]) for a in alts]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice, ast.FormattedValue)):
                alts = self.use(alts, c, skip)
        return alts

    def store(self, alts, t):
        if isinstance(t, ast.Name):
            return [a.bind([t.id]) for a in alts]
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                alts = self.store(alts, x)
            return alts
        if isinstance(t, ast.Starred):
            return self.store(alts, t.value)
        alts = self.use(alts, t.value)
        if isinstance(t, ast.Subscript):
            alts = self.use(alts, t.slice)
            k = txt(t.value)
        else:
            k = txt(t)
        return [a.kill_attr(k) for a in alts]

    def ok(self, alts):
        return [a for a in alts if feasible(a, self.values)] if self.values else alts

    # -- statements
    def run(self):
        alts = [Alt(frozenset(self.params))]
        self.ends = self.block(self.fn.body, alts, None)
        return self

    def block(self, body, alts, ex):
        for s in body:
            if not alts:
                return alts
            alts = norm(self.stmt(s, alts, ex))
        return alts

    def stmt(self, s, alts, ex):
        if isinstance(s, ast.Assign):
            alts = self.use(alts, s.value)
            for t in s.targets:
                alts = self.store(alts, t)
            pairs = []
            if len(s.targets) == 1:
                t0 = s.targets[0]
                if isinstance(t0, ast.Name):
                    pairs = [(t0, s.value)]
                elif isinstance(t0, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t0.elts) == len(s.value.elts):
                    pairs = list(zip(t0.elts, s.value.elts))
            for t0, v0 in pairs:
                if not (isinstance(t0, ast.Name) and isinstance(v0, ast.Constant)):
                    continue
                nm, v = t0.id, v0.value
                if isinstance(v, (bool, type(None))):
                    alts = [a.with_fact(nm, bool(v), frozenset([nm])) for a in alts]
                    alts = [a.with_fact("%s is None" % nm, v is None, frozenset([nm])) for a in alts]
                elif isinstance(v, (str, int)):
                    alts = [a.with_fact("%s == %r" % (nm, v), True, frozenset([nm])) for a in alts]
            return alts
        if isinstance(s, ast.AugAssign):
            alts = self.use(alts, s.value)
            if isinstance(s.target, ast.Name):
                alts = self.use(alts, ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            return self.store(alts, s.target)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                alts = self.use(alts, s.value)
                alts = self.store(alts, s.target)
            return alts
        if isinstance(s, ast.Expr):
            return self.use(alts, s.value)
        if isinstance(s, ast.Return):
            alts = self.use(alts, s.value)
            self.returns.append((s, alts))
            return []
        if isinstance(s, ast.Raise):
            self.use(self.use(alts, s.exc), s.cause)
            return []
        if isinstance(s, ast.Assert):
            self.use(alts, s.test)
            self.use(assume(alts, s.test, False), s.msg)
            return assume(alts, s.test, True)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    alts = self.use(alts, ast.copy_location(ast.Name(t.id, ast.Load()), t))
                    alts = [a.unbind([t.id]) for a in alts]
                else:
                    alts = self.use(alts, t.value)
            return alts
        if isinstance(s, ast.If):
            alts = self.use(alts, s.test)
            return self.block(s.body, self.ok(assume(alts, s.test, True)), ex) + self.block(s.orelse, self.ok(assume(alts, s.test, False)), ex)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            alts = self.use(alts, s.iter)
            some = "some element in " + txt(s.iter)
            nm = frozenset(names_in(s.iter))
            kind = self.extent(s.iter)
            enter, skip = [], []
            for a in alts:
                k = kind if kind is not None else (a.facts[some][0] if some in a.facts else None)
                if k is not False:
                    enter.append(a.with_fact(some, True, nm))
                if k is False or (k is None and not self.runs):
                    skip.append(a.with_fact(some, False, nm))
            after = list(self.block(s.orelse, skip, ex)) if s.orelse else list(skip)
            cur = enter
            for _ in range(3):
                e2 = Exits()
                out = self.block(s.body, norm(self.store(cur, s.target)), e2)
                out = norm(out + e2.cont)
                after += e2.brk
                after += self.block(s.orelse, out, ex) if s.orelse else out
                cur = out
                if not cur:
                    break
            return after
        if isinstance(s, ast.While):
            after = []
            cur = alts
            for k in range(3):
                cur = self.use(cur, s.test)
                if k == 0 and self.runs and all(decide(a, s.test) is not False for a in cur):
                    fin = []
                else:
                    fin = assume(cur, s.test, False)
                after += self.block(s.orelse, fin, ex) if s.orelse else fin
                e2 = Exits()
                out = self.block(s.body, assume(cur, s.test, True), e2)
                after += e2.brk
                cur = norm(out + e2.cont)
                if not cur:
                    break
            if cur:
                after += assume(cur, s.test, False)
            return after
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                alts = self.use(alts, it.context_expr)
                if it.optional_vars is not None:
                    alts = self.store(alts, it.optional_vars)
            return self.block(s.body, alts, ex)
        if isinstance(s, ast.Try):
            mid = list(alts)
            cur = alts
            for b in s.body:
                if not cur:
                    break
                cur = norm(self.stmt(b, cur, ex))
                if b is not s.body[-1]:
                    mid += cur
                # partial effects inside a compound statement: names may or may not be bound; the state before it covers that
            out = self.block(s.orelse, cur, ex) if s.orelse else list(cur)
            tried = ast.Module(s.body, [])
            gone = frozenset(x.id for x in ast.walk(tried) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)))
            wrote = {txt(x.value if isinstance(x, ast.Subscript) else x) for x in ast.walk(tried) if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store)}
            for h in s.handlers:
                st = norm([Alt(a.bound, {k: v for k, v in a.facts.items() if not (v[1] & gone) and not any(w in k for w in wrote)}) for a in mid])
                if h.type is not None:
                    st = self.use(st, h.type)
                if h.name:
                    st = [a.bind([h.name]) for a in st]
                res = self.block(h.body, st, ex)
                if h.name:
                    res = [a.unbind([h.name]) for a in res]
                out += res
            if s.finalbody:
                self.block(s.finalbody, norm(out + mid), ex)
                out = self.block(s.finalbody, norm(out), ex)
            return out
        if isinstance(s, ast.Break):
            if ex is not None:
                ex.brk += alts
            return []
        if isinstance(s, ast.Continue):
            if ex is not None:
                ex.cont += alts
            return []
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                alts = self.use(alts, d)
            return [a.bind([s.name]) for a in alts]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [a.bind([(al.asname or al.name).split(".")[0] for al in s.names]) for a in alts]
        return alts

    def extent(self, it):
        """True: certainly runs at least once"""
        if isinstance(it, (ast.List, ast.Tuple)) and it.elts:
            return True
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range":
                if len(it.args) == 1 and isinstance(it.args[0], ast.Constant):
                    return it.args[0].value > 0
                if len(it.args) == 2 and all(isinstance(x, ast.Constant) for x in it.args):
                    return it.args[0].value < it.args[1].value
            if it.func.id == "enumerate" and it.args:
                return self.extent(it.args[0])
        return None


def is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def value_returns(fn):
    todo = list(fn.body)
    out = []
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.append(n)
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out


# ---------------------------------------------------------------------------- admissible values of expressions
class _Other:
    def __repr__(self):
        return "<an object of an admitted type>"


OTHER = _Other()


def option_values(ix):
    """(class name, option name) -> declared admissible constants; OTHER stands for the objects of an admitted type; None: not listed"""
    out = {}
    consts = {}
    for m in ix.lib_modules():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Tuple, ast.List)):
                consts[n.targets[0].id] = n.value
    for f in ix.all_functions():
        if f.cls is None:
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant)):
                continue
            if not (isinstance(n.func, ast.Attribute) and n.func.attr == "declare" or isinstance(n.func, ast.Name) and n.func.id == "declare"):
                continue
            nm = n.args[0].value
            vals = [k.value for k in n.keywords if k.arg == "values"]
            types = [k.value for k in n.keywords if k.arg == "types"]
            got = None
            if vals:
                v = vals[0]
                if isinstance(v, ast.Name) and v.id in consts:
                    v = consts[v.id]
                if isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in v.elts):
                    got = frozenset(x.value for x in v.elts)
                elif isinstance(v, ast.Constant):
                    got = frozenset([v.value])
            if got is not None and types:
                # a type that only repeats the kind of the listed values adds nothing
                plain = all(isinstance(t, ast.Name) and t.id == "str" for t in types) and all(isinstance(x, str) for x in got)
                if not plain:
                    got = got | {OTHER}
            out[(f.cls.name, nm)] = got
    return out


def opt_name(e):
    """self.options["name"] / model.options["name"] -> name"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        t = e.value
        if isinstance(t, ast.Attribute) and t.attr == "options" or isinstance(t, ast.Name) and t.id == "options":
            return e.slice.value
    return None


def argument(call, params, name, method):
    ps = params[1:] if method else params
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if name in ps and ps.index(name) < len(call.args):
        return call.args[ps.index(name)]
    return None


class Values:
    """values an expression can take, where the program fixes them: options with declared values, and parameters every call site gives"""

    def __init__(self, ix):
        self.ix = ix
        self.opts = option_values(ix)
        self.calls = {}
        for f in ix.all_functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                    if nm:
                        self.calls.setdefault(nm, []).append((f, n))

    def option(self, cls, name):
        """the declared values of an option as a method of the class sees it (the class, its ancestors and its descendants)"""
        if cls is None or name is None:
            return None
        out = frozenset()
        ks = list(cls.mro()) + list(self.ix.subclasses(cls))
        got = [self.opts[(k.name, name)] for k in ks if (k.name, name) in self.opts]
        if not got or any(g is None for g in got):
            return None
        for g in got:
            out |= g
        return out

    def of(self, f):
        out = {}
        stored = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored[n.id] = stored.get(n.id, 0) + 1
        written = {txt(n) for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(f.node):
            vals = self.option(f.cls, opt_name(n))
            if vals and txt(n) not in written:
                out[txt(n)] = (vals, frozenset(names_in(n)))
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and stored[n.targets[0].id] == 1:
                vals = self.option(f.cls, opt_name(n.value))
                if vals:
                    out[n.targets[0].id] = (vals, frozenset([n.targets[0].id]))
        params = f.params()
        compared = {n.left.id for n in ast.walk(f.node) if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name)}
        for p in params:
            if p in compared and p not in stored:
                vals = frozenset()
                known = bool(self.calls.get(f.name))
                for g, c in self.calls.get(f.name, ()):
                    a = argument(c, params, p, f.cls is not None and not f.is_static)
                    o = self.option(g.cls, opt_name(a))
                    if isinstance(a, ast.Constant):
                        vals |= {a.value}
                    elif o:
                        vals |= o
                    else:
                        known = False
                if known:
                    out[p] = (vals, frozenset([p]))
        return out
