"""Project index: every library module of /repo/smt, its classes (C3 MRO), functions and imports.

Test, example and documentation sources are not part of the library and are skipped.
"""
import ast
import hashlib
import os

REPO = os.environ.get("SMTLINT_REPO", "/repo")


class AnalysisBroken(Exception):
    """The machinery cannot decide (vanished anchor, unparseable file): error exit, never a silent pass."""


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, "name", "<lambda>")
        q = self.name
        if cls is not None:
            q = cls.name + "." + q
        if outer is not None:
            q = outer.qual.split(":", 1)[1] + ".<locals>." + self.name
        self.qual = module.name + ":" + q
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d).split("(")[0])
        self.decorators = decs

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") for d in self.decorators)

    @property
    def is_ctxmanager(self):
        return any(d.endswith("contextmanager") for d in self.decorators)

    def params(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        return names

    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def loc(self, node=None):
        return "%s:%d" % (self.module.rel, getattr(node or self.node, "lineno", 0))

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + ":" + node.name
        self.base_exprs = node.bases
        self.bases = []
        self.ext_bases = []
        self.methods = {}
        self.attrs = {}
        self._collect(node.body)
        self._mro = None

    def _collect(self, body):
        """methods and attributes of the class body; of the branches of a conditional, the first one that defines the name"""
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(s, self.module, cls=self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                self.attrs[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                m, a = dict(self.methods), dict(self.attrs)
                self._collect(s.orelse)
                for h in getattr(s, "handlers", []):
                    self._collect(h.body)
                self._collect(s.body)
                self.methods.update({k: v for k, v in m.items() if k not in self.methods})
                self.attrs.update({k: v for k, v in a.items() if k not in self.attrs})

    def mro(self):
        if self._mro is None:
            self._mro = self._c3()
        return self._mro

    def _c3(self):
        seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisBroken("inconsistent MRO for %s" % self.qual)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return None
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.methods or name in c.attrs:
                return c
        return None

    def is_subclass_of(self, other):
        return other in self.mro()

    def abstract_methods(self):
        seen, out = set(), []
        for c in self.mro():
            for n, f in c.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if f.is_abstract:
                    out.append(n)
            seen.update(c.attrs)
        return out

    def __repr__(self):
        return "<C %s>" % self.qual


class ModuleInfo:
    def __init__(self, name, path, rel, src=None):
        self.name = name
        self.path = path
        self.rel = rel
        self.synthetic = src is not None
        self.src = open(path, encoding="utf8").read() if src is None else src
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.tree = ast.parse(self.src, path)
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.classes = {}
        self.functions = {}
        self.imports = {}  # local name -> ("mod", dotted) | ("from", module, name)
        self.parents = {}
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                self.parents[c] = p
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s, self)
            elif isinstance(s, ast.FunctionDef):
                self.functions[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.resolve_from(s)
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.Try, ast.If)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)

    def resolve_from(self, s):
        base = s.module or ""
        if s.level:
            parts = self.name.split(".")
            if not self.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        return base

    def __repr__(self):
        return "<M %s>" % self.name


SKIP_DIRS = {"tests", "test", "examples", "__pycache__"}


class Index:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, "smt")
        if not os.path.isdir(root):
            raise AnalysisBroken("no smt package in %s" % self.repo)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    mod = rel[:-3].replace(os.sep, ".")
                    if mod.endswith(".__init__"):
                        mod = mod[: -len(".__init__")]
                    if mod.endswith("sm_test_case"):
                        continue
                    self.modules[mod] = ModuleInfo(mod, p, rel)
        if len(self.modules) < 30:
            raise AnalysisBroken("only %d library modules found" % len(self.modules))
        for m in self.modules.values():
            self._link(m)
        self.funcs = {}
        for m in list(self.modules.values()):
            self._collect(m, m.tree.body, None, None)

    def add_source(self, name, src):
        """add a synthetic module (a driver or a model of a native extension) to the index"""
        m = ModuleInfo(name, "<%s>" % name, "<%s>" % name, src)
        self.modules[name] = m
        self._link(m)
        self._collect(m, m.tree.body, None, None)
        return m

    def _link(self, m):
        for c in m.classes.values():
            for b in c.base_exprs:
                r = self.resolve_expr(m, b)
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                else:
                    c.ext_bases.append(ast.unparse(b))

    def lib_classes(self):
        return [c for c in self.all_classes() if not c.module.synthetic]

    def lib_modules(self):
        return [m for m in self.modules.values() if not m.synthetic]

    def all_functions(self):
        return [f for f in self.funcs.values() if not f.module.synthetic and self.modules.get(f.module.name) is f.module]

    def _collect(self, m, body, cls, outer):
        for s in body:
            if isinstance(s, ast.ClassDef) and cls is None and outer is None and s.name in m.classes:
                for f in m.classes[s.name].methods.values():
                    self.funcs[f.qual] = f
                    self._nested(f)
            elif isinstance(s, ast.FunctionDef) and outer is None:
                f = m.functions.get(s.name)
                if f is None or f.node is not s:
                    f = FuncInfo(s, m)
                self.funcs[f.qual] = f
                self._nested(f)
            elif isinstance(s, (ast.Try, ast.If)):
                self._collect(m, s.body, cls, outer)
                for h in getattr(s, "handlers", []):
                    self._collect(m, h.body, cls, outer)
                self._collect(m, s.orelse, cls, outer)

    def _nested(self, f):
        f.nested = {}
        stack = list(ast.iter_child_nodes(f.node))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                g = FuncInfo(n, f.module, outer=f)
                f.nested[n] = g
                if isinstance(n, ast.FunctionDef):
                    self.funcs[g.qual] = g
                else:
                    g.qual += "@%d" % n.lineno
                self._nested(g)
            elif isinstance(n, ast.ClassDef):
                continue
            else:
                stack.extend(ast.iter_child_nodes(n))

    def resolve_name(self, m, name, _seen=None):
        """Resolve a module-level name to ClassInfo / FuncInfo / ModuleInfo / ("ext", dotted) / None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ("ext", imp[1])
            _, base, nm = imp
            if base in self.modules:
                r = self.resolve_name(self.modules[base], nm, _seen)
                if r is not None:
                    return r
            if base + "." + nm in self.modules:
                return self.modules[base + "." + nm]
            return ("ext", base + "." + nm)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, ModuleInfo):
                r = self.resolve_name(b, e.attr)
                if r is None and b.name + "." + e.attr in self.modules:
                    return self.modules[b.name + "." + e.attr]
                return r
            if isinstance(b, tuple):
                return ("ext", b[1] + "." + e.attr)
        return None

    def cls(self, name):
        out = [c for m in self.modules.values() for c in m.classes.values() if c.name == name]
        if len(out) != 1:
            raise AnalysisBroken("class %s: found %d definitions" % (name, len(out)))
        return out[0]

    def has_cls(self, name):
        return sum(1 for m in self.modules.values() for c in m.classes.values() if c.name == name) == 1

    def func(self, module, name):
        m = self.modules.get(module)
        if m is None or name not in m.functions:
            raise AnalysisBroken("function %s:%s not found" % (module, name))
        return m.functions[name]

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses(self, base):
        return [c for c in self.all_classes() if c.is_subclass_of(base) and c is not base]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]


if __name__ == "__main__":
    ix = Index()
    print(len(ix.modules), "modules", sum(1 for _ in ix.all_classes()), "classes", len(ix.funcs), "functions", ix.digest())
