"""Effects of the native kernels (smt/src): what they read, write, keep and carry from point to point.

Each C++ file is parsed by clang (JSON syntax tree); small stand-ins for the standard headers keep the tree small.
Pointers are followed to the arrays they point to (a parameter, a member, a local array), flow-insensitively; then every
function is walked in order to find which arrays it writes on every path, which it may write, and which it may read
before it wrote them.  Calls of functions of smt/src use their summaries."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PURE = {"pow", "exp", "sqrt", "fabs", "ceil", "floor", "log", "sin", "cos", "tan", "tanh", "max", "min", "fmax", "fmin", "abs", "round", "hypot", "isnan", "fmod", "log10", "isinf", "lround"}
FILLS = {"memset": 0, "fill_n": 0, "memcpy": 0, "memmove": 0}
COPIES = {"copy": 2, "copy_n": 2}


class Undecided(Exception):
    pass


def clang_json(path):
    for inc in (["-I", os.path.join(HERE, "cxx")], []):
        p = subprocess.run(["clang++", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] + inc + [path], capture_output=True)
        if p.returncode == 0:
            return json.loads(p.stdout)
    raise Undecided("%s: clang cannot parse it" % path)


def kids(n):
    return [k for k in n.get("inner", ()) if k.get("kind")]


def strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr", "FullExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXBindTemporaryExpr"):
        n = kids(n)[-1]
    return n


def typ(n):
    return n.get("type", {}).get("qualType", "")


def is_ptr(n):
    t = typ(n)
    return t.rstrip().endswith(("*", "]", "*const")) or "*__restrict" in t or "(*" in t


class Fn:
    def __init__(self, file, node, cls):
        self.file, self.node, self.cls = file, node, cls
        self.name = node["name"]
        self.params = [p for p in kids(node) if p["kind"] == "ParmVarDecl"]
        self.body = next((k for k in kids(node) if k["kind"] == "CompoundStmt"), None)
        self.full = "%s::%s" % (cls, self.name) if cls else self.name
        self.notes = []  # (kind, what, line)
        self.lines = {}


class Summary:
    def __init__(self):
        self.may, self.must, self.exposed = set(), set(), set()  # roots
        self.keeps = set()  # (root kept, where)
        self.allocates = set()


def poly_add(a, b, s=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def poly_mul(a, b):
    if a is None or b is None:
        return None
    out = {}
    for k, c in a.items():
        for l, d in b.items():
            m = tuple(sorted(k + l))
            out[m] = out.get(m, 0) + c * d
    return {k: c for k, c in out.items() if c}


class Native:
    def __init__(self, root):
        self.root = root
        self.fns, self.ids, self.bases, self.members = {}, {}, {}, {}
        self.globals, self.undecided = {}, []
        self.counts = {"native functions": 0, "native array accesses": 0, "native loops over points": 0, "native writes": 0}
        self.classes = {}
        src = os.path.join(root, "smt", "src")
        files = []
        for d, _, fs in sorted(os.walk(src)):
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx")) and os.path.splitext(f)[0] + ".pyx" not in fs]
        for f in files:
            try:
                self.load(f)
            except Undecided as e:
                self.undecided.append(str(e))
        self.wrappers, self.by_name = {}, {}
        for f in self.fns.values():
            self.by_name.setdefault(f.full, f)
        for d, _, fs in sorted(os.walk(src)):
            for f in sorted(fs):
                if f.endswith(".pyx"):
                    self.load_pyx(os.path.join(d, f))
        # the methods Python calls
        self.entries = {}
        for key, (owner, pars, calls, lines, rel) in self.wrappers.items():
            for c, args in calls:
                f = self.method(owner, c) if owner else None
                if f is None:
                    self.undecided.append("%s.%s: calls %s" % (key[1], key[2], c))
                else:
                    self.entries.setdefault(f.full, f)
        self.sums, self.active = {}, set()
        for f in list(self.by_name.values()):
            if f.body is not None:
                self.counts["native functions"] += 1
                try:
                    self.summary(f)
                except Undecided as e:
                    self.undecided.append("%s: %s" % (f.full, e))
                    self.sums[f.full] = None

    def has(self, poly, var):
        return poly is not None and any("%s%s" % var in m for m in poly)

    # ------------------------------------------------------------------ loading
    def load(self, path):
        rel = os.path.relpath(path, self.root)
        tree = clang_json(path)
        cur = [None, None]

        def positions(n):
            # clang gives file and line only where they change
            for key in ("loc", "range"):
                v = n.get(key)
                if not isinstance(v, dict):
                    continue
                for w in ((v,) if key == "loc" else (v.get("begin", {}), v.get("end", {}))):
                    for x in ((w.get("spellingLoc"), w.get("expansionLoc")) if "expansionLoc" in w else (w,)):
                        if x:
                            if "file" in x:
                                cur[0] = x["file"]
                            if "line" in x:
                                cur[1] = x["line"]
                    if key == "range" and w is v.get("begin"):
                        n["_line"], n["_file"] = cur[1], cur[0]
                    elif key == "loc":
                        n["_line"], n["_file"] = cur[1], cur[0]
            for k in n.get("inner", ()):
                if isinstance(k, dict):
                    positions(k)

        positions(tree)
        decl_cls = {}

        def visit(n, cls):
            for k in kids(n):
                kd = k["kind"]
                if kd in ("NamespaceDecl", "LinkageSpecDecl"):
                    visit(k, cls)
                elif kd == "CXXRecordDecl" and k.get("name"):
                    nm = k["name"]
                    if k.get("bases") is not None:
                        self.bases[nm] = [b["type"]["qualType"] for b in k["bases"]]
                    if any(x["kind"] in ("FieldDecl", "CXXMethodDecl") for x in kids(k)):
                        self.members.setdefault(nm, {})
                        for x in kids(k):
                            if x["kind"] == "FieldDecl":
                                self.members[nm][x["name"]] = typ(x)
                            if x["kind"] == "VarDecl" and x.get("storageClass") == "static":
                                self.globals[x["id"]] = "%s::%s" % (nm, x["name"])
                            if x["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                                decl_cls[x["id"]] = nm
                    visit(k, nm)
                elif kd in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and k.get("name"):
                    c = cls or decl_cls.get(k.get("previousDecl")) or decl_cls.get(k["id"])
                    if c:
                        decl_cls[k["id"]] = c
                    f = Fn(rel, k, c)
                    self.ids[k["id"]] = f.full
                    old = self.by_full(f.full)
                    if f.body is not None:
                        self.fns[f.full] = f
                    elif old is None:
                        self.fns[f.full] = f
                elif kd == "VarDecl" and (k.get("_file") or "").startswith(os.path.join(self.root, "smt")) or kd == "VarDecl" and k.get("_file") == path:
                    if "const" not in typ(k).split("*")[-1].split():
                        self.globals[k["id"]] = k["name"]

        visit(tree, None)

    def by_full(self, n):
        return self.fns.get(n)

    def load_pyx(self, path):
        src = re.sub(r"\\\n", " ", open(path).read())
        rel = os.path.relpath(path, self.root)
        cls, owner = None, {}
        for m in re.finditer(r"^cdef class (\w+)|cdef (\w+) ?\* ?thisptr|def (\w+)\(self,?((?:[^()]|\([^)]*\))*)\):(.*?)(?=\n    def |\ncdef |\Z)", src, re.S | re.M):
            if m.group(1):
                cls = m.group(1)
            elif m.group(2):
                owner[cls] = m.group(2)
            elif cls and not m.group(3).startswith("__"):
                pars = []
                for p in re.sub(r"\s+", " ", m.group(4)).split(","):
                    p = p.strip()
                    if p:
                        pars.append(re.split(r"[\s\]]+", p.split("=")[0].strip())[-1])
                body = m.group(5)
                calls = re.findall(r"self\.thisptr\.(\w+)\(([^)]*)\)", body)
                lines = [x for x in body.strip().splitlines() if x.strip()]
                self.wrappers[(os.path.basename(path)[:-4], cls, m.group(3))] = (owner.get(cls), pars, [(c, [a.strip() for a in args.split(",") if a.strip()]) for c, args in calls], len(lines), rel)

    def method(self, cls, name):
        todo = [cls]
        while todo:
            c = todo.pop(0)
            f = self.by_name.get("%s::%s" % (c, name))
            if f is not None and f.body is not None:
                return f
            todo += self.bases.get(c, [])
        return None

    def all_members(self, cls):
        out = dict(self.members.get(cls, {}))
        for b in self.bases.get(cls, []):
            out.update(self.all_members(b))
        return out

    # ------------------------------------------------------------------ one function
    def summary(self, f):
        if f.full in self.sums:
            return self.sums[f.full]
        if f.full in self.active:
            raise Undecided("recursion")
        self.active.add(f.full)
        try:
            self.sums[f.full] = Walk(self, f).run()
        finally:
            self.active.discard(f.full)
        return self.sums[f.full]


class Walk:
    def __init__(self, nat, f):
        self.N, self.f = nat, f
        self.pt = {}  # pointer variable (local id or member root) -> roots
        self.locals, self.pidx, self.statics, self.defs = {}, {}, set(), {}
        self.out = Summary()
        self.loop = None  # state of the loop over points
        self.index_ctx = 0
        self.counters = set()  # read before written, but only to select elements
        self.loops = []
        self.accesses = []  # (root, polynomial, loop, write, line)

    # roots: ("p", i) what parameter i points to; ("m", name) a member (its array, or its value); ("l", id) a local;
    # ("g", name) a global or static; ("f", name) a function
    def line(self, n):
        while isinstance(n, dict):
            if n.get("_line"):
                return n["_line"]
            n = next(iter(kids(n)), None)
        return self.f.node.get("_line")

    def note(self, kind, what, n):
        x = (kind, what, self.line(n))
        if x not in self.f.notes:
            self.f.notes.append(x)

    def run(self):
        f = self.f
        for i, p in enumerate(f.params):
            self.pidx[p["id"]] = i
        self.collect(f.body)
        for k in kids(f.node):
            if k["kind"] == "CXXCtorInitializer":
                m = k.get("anyInit", {}).get("name")
                if m:
                    self.out.must.add(("m", m))
                    self.out.may.add(("m", m))
        # pointers: flow-insensitive fixpoint
        for _ in range(12):
            before = {k: set(v) for k, v in self.pt.items()}
            self.pointers(f.body)
            if before == self.pt:
                break
        W = set(self.out.must)
        W = self.stmt(f.body, W)
        f.walk = self
        if W is not None:
            self.out.must = W if self.out.must is None or not getattr(self, "ret", None) else W & self.ret
        else:
            self.out.must = getattr(self, "ret", set())
        self.out.must = {r for r in self.out.must if r[0] != "l"}
        self.out.may = {r for r in self.out.may if r[0] != "l"}
        self.out.exposed = {r for r in self.out.exposed | self.counters if r[0] not in ("l", "f")}
        return self.out

    def collect(self, n):
        for k in kids(n):
            if k["kind"] == "VarDecl":
                self.locals[k["id"]] = k
                if k.get("storageClass") == "static":
                    self.statics.add(k["id"])
                    if "const" not in typ(k).split():
                        self.note("static", k["name"], k)
            if k["kind"] == "LambdaExpr":
                raise Undecided("a lambda")
            self.collect(k)

    def assigned(self, vid):
        """all expressions assigned to a local variable (None: changed some other way)"""
        if vid in self.defs:
            return self.defs[vid]
        out = []

        def go(n):
            if n["kind"] == "VarDecl" and n["id"] == vid and kids(n):
                out.append(kids(n)[-1])
            if n["kind"] == "BinaryOperator" and n.get("opcode") == "=":
                t = strip(kids(n)[0])
                if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                    out.append(kids(n)[1])
            if n["kind"] == "CompoundAssignOperator" or n["kind"] == "UnaryOperator" and n.get("opcode") in ("++", "--"):
                t = strip(kids(n)[0])
                if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                    out.append(None)
            if n["kind"] == "UnaryOperator" and n.get("opcode") == "&":
                t = strip(kids(n)[0])
                if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                    out.append(None)
            for k in kids(n):
                go(k)

        go(self.f.body)
        self.defs[vid] = out
        return out

    # ------------------------------------------------------------------ pointers
    def pointers(self, n):
        if n["kind"] == "VarDecl" and n["id"] in self.locals and is_ptr(n) and kids(n):
            self.pt.setdefault(("l", n["id"]), set()).update(self.points(kids(n)[-1]))
        if n["kind"] == "BinaryOperator" and n.get("opcode") == "=" and is_ptr(kids(n)[0]):
            t = strip(kids(n)[0])
            for v in self.vars_of(t):
                self.pt.setdefault(v, set()).update(self.points(kids(n)[1]))
        for k in kids(n):
            self.pointers(k)

    def vars_of(self, t):
        """the variables an lvalue names"""
        t = strip(t)
        if t["kind"] == "DeclRefExpr":
            d = t["referencedDecl"]
            return {self.var(d)}
        if t["kind"] == "MemberExpr":
            return {("m", t["name"])}
        if t["kind"] == "ConditionalOperator":
            return self.vars_of(kids(t)[1]) | self.vars_of(kids(t)[2])
        return set()

    def var(self, d):
        if d["kind"] == "FunctionDecl":
            return ("f", self.N.ids.get(d["id"], d.get("name")))
        if d["id"] in self.statics or d["id"] in self.N.globals:
            return ("g", d.get("name"))
        if d["id"] in self.pidx:
            return ("a", self.pidx[d["id"]])  # the parameter variable itself
        return ("l", d["id"])

    def points(self, e):
        """the roots a pointer expression points to"""
        e = strip(e)
        k = e["kind"]
        if k == "DeclRefExpr":
            v = self.var(e["referencedDecl"])
            if v[0] == "a":
                return {("p", v[1])} | self.pt.get(v, set())
            if v[0] == "f":
                return {v}
            if v[0] == "l" and (typ(self.locals.get(v[1], {})).rstrip().endswith("]")):
                return {v}
            return set(self.pt.get(v, set())) or ({v} if v[0] == "g" else set())
        if k == "MemberExpr":
            # a member pointer owns its array; what else was stored in it
            return {("m", e["name"])}
        if k == "UnaryOperator" and e.get("opcode") == "&":
            t = strip(kids(e)[0])
            if t["kind"] == "ArraySubscriptExpr":
                return self.points(kids(t)[0])
            if t["kind"] == "UnaryOperator" and t.get("opcode") == "*":
                return self.points(kids(t)[0])
            return {("p", v[1]) if v[0] == "a" else v for v in self.vars_of(t)}
        if k == "UnaryOperator" and e.get("opcode") in ("++", "--"):
            return self.points(kids(e)[0])
        if k == "BinaryOperator" and e.get("opcode") in ("+", "-"):
            return set().union(*[self.points(x) for x in kids(e) if is_ptr(strip(x)) or is_ptr(x)] or [set()])
        if k == "BinaryOperator" and e.get("opcode") in ("=", ","):
            return self.points(kids(e)[1])
        if k == "ConditionalOperator":
            return self.points(kids(e)[1]) | self.points(kids(e)[2])
        if k == "CXXNewExpr":
            return {("new", e["id"])}
        if k in ("ArraySubscriptExpr",) or k == "UnaryOperator" and e.get("opcode") == "*":
            raise Undecided("a pointer stored in an array")
        return set()

    # ------------------------------------------------------------------ reads and writes
    def read(self, roots, W, n, counter=False):
        for r in roots:
            if r[0] != "f" and r not in W:
                (self.counters if counter or self.index_ctx else self.out.exposed).add(r)

    def write(self, roots, W, n, strong=True):
        self.N.counts["native writes"] += 1
        for r in roots:
            self.out.may.add(r)
        if len(roots) == 1 and strong:
            W |= set(roots)

    def poly(self, e, seen=()):
        """an integer expression as a polynomial of variables that do not change"""
        e = strip(e)
        k = e["kind"]
        if k == "IntegerLiteral":
            v = int(e["value"])
            return {(): v} if v else {}
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            v = self.var(d)
            if v[0] == "l" and v[1] not in seen:
                a = self.assigned(v[1])
                if len(a) == 1 and a[0] is not None and not self.loopvar(v[1]):
                    p = self.poly(a[0], seen + (v[1],))
                    if p is not None:
                        return p
            return {("%s%s" % (v[0], v[1]),): 1}
        if k == "MemberExpr":
            return {("m" + e["name"],): 1}
        if k == "BinaryOperator" and e.get("opcode") in ("+", "-", "*"):
            a, b = self.poly(kids(e)[0], seen), self.poly(kids(e)[1], seen)
            return poly_mul(a, b) if e["opcode"] == "*" else poly_add(a, b, 1 if e["opcode"] == "+" else -1)
        if k == "UnaryOperator" and e.get("opcode") == "-":
            return poly_add({}, self.poly(kids(e)[0], seen), -1)
        return {("e" + e["id"],): 1} if "id" in e else None

    def loopvar(self, vid):
        return False

    def inner_counter(self, vid, loop):
        """a counter of a loop inside the loop over the points, which does not depend on the point"""
        d = self.locals.get(vid)
        if d is None:
            return False
        inside, dep = [], []

        def go(n):
            if n["kind"] == "VarDecl" and n["id"] == vid:
                inside.append(n)
            for k in kids(n):
                go(k)

        def refs(e, seen):
            e = strip(e)
            if e["kind"] == "DeclRefExpr":
                v = self.var(e["referencedDecl"])
                if v == loop["var"]:
                    dep.append(e)
                elif v[0] == "l" and v[1] not in seen:
                    seen.add(v[1])
                    for x in self.assigned(v[1]):
                        if x is not None:
                            refs(x, seen)
            elif e["kind"] in ("CallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr"):
                dep.append(e)
            for k in kids(e):
                refs(k, seen)

        go(loop["node"])
        for x in self.assigned(vid):
            if x is not None:
                refs(x, {vid})
        return bool(inside) and not dep

    def offset(self, e, seen=()):
        """(root, polynomial) of a pointer expression, if it is one array and a known offset"""
        e = strip(e)
        k = e["kind"]
        if k == "DeclRefExpr":
            v = self.var(e["referencedDecl"])
            if v[0] == "l" and v[1] not in seen and not typ(self.locals.get(v[1], {})).rstrip().endswith("]"):
                a = self.assigned(v[1])
                if len(a) == 1 and a[0] is not None:
                    return self.offset(a[0], seen + (v[1],))
                return None
            rs = self.points(e)
            return (next(iter(rs)), {}) if len(rs) == 1 else None
        if k == "MemberExpr":
            return ("m", e["name"]), {}
        if k == "BinaryOperator" and e.get("opcode") in ("+", "-"):
            a, b = kids(e)
            if e["opcode"] == "+" and not is_ptr(strip(a)):
                a, b = b, a
            o = self.offset(a, seen)
            p = self.poly(b)
            if o is None or p is None:
                return None
            return o[0], poly_add(o[1], p, 1 if e["opcode"] == "+" else -1)
        if k == "UnaryOperator" and e.get("opcode") == "&":
            t = strip(kids(e)[0])
            if t["kind"] == "ArraySubscriptExpr":
                o, p = self.offset(kids(t)[0], seen), self.poly(kids(t)[1])
                return None if o is None or p is None else (o[0], poly_add(o[1], p))
        return None

    def access(self, e, W, wr, n):
        """an element of an array: e is the subscript or dereference"""
        self.N.counts["native array accesses"] += 1
        if e["kind"] == "ArraySubscriptExpr":
            base, idx = kids(e)
            self.index_ctx += 1
            self.expr(idx, W)
            self.index_ctx -= 1
            p = self.poly(idx)
        else:
            base, p = kids(e)[0], {}
        self.expr_ptr(base, W)
        roots = self.points(base)
        o = self.offset(base)
        if not roots:
            raise Undecided("line %s: a pointer to an unknown place" % self.line(e))
        full = poly_add(o[1], p) if o is not None and p is not None else None
        for r in roots:
            self.accesses.append((r, full, self.loop, wr, self.line(e)))
        return roots

    def expr_ptr(self, e, W):
        """evaluate a pointer expression for its side effects (its variables are read)"""
        e = strip(e)
        if e["kind"] in ("MemberExpr",):
            return
        if e["kind"] == "DeclRefExpr":
            return
        if e["kind"] == "BinaryOperator" and e.get("opcode") in ("+", "-"):
            for k in kids(e):
                if is_ptr(strip(k)):
                    self.expr_ptr(k, W)
                else:
                    self.index_ctx += 1
                    self.expr(k, W)
                    self.index_ctx -= 1
            return
        self.expr(e, W)

    def value(self, e, W, pointer):
        """the right side of an assignment: a pointer is not what it points to"""
        k = strip(e)["kind"]
        (self.expr_ptr if pointer and k in ("DeclRefExpr", "MemberExpr", "BinaryOperator", "UnaryOperator") else self.expr)(e, W)

    def lvalue(self, t, W, n, also_read=False):
        t = strip(t)
        if t["kind"] == "ArraySubscriptExpr" or t["kind"] == "UnaryOperator" and t.get("opcode") == "*":
            roots = self.access(t, W, True, n)
            strong = not also_read or roots <= W
            if also_read:
                self.read(roots, W, n)
                for r in list(roots):
                    self.accesses.append((r, None if self.accesses[-1][1] is None else self.accesses[-1][1], self.loop, False, self.line(t)))
            self.write(roots, W, n, strong)
            return
        if t["kind"] == "ConditionalOperator":
            self.expr(kids(t)[0], W)
            for k in kids(t)[1:]:
                self.lvalue(k, set(W), n, also_read)
            return
        vs = self.vars_of(t)
        if not vs:
            raise Undecided("line %s: an assignment to %s" % (self.line(t), t["kind"]))
        if also_read:
            self.read(vs, W, n, counter="int" in typ(t) and not is_ptr(t))
        self.write(vs, W, n, strong=not also_read or vs <= W)

    def expr(self, e, W):
        e = strip(e)
        k = e["kind"]
        ks = kids(e)
        if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "StringLiteral", "CXXNullPtrLiteralExpr", "GNUNullExpr", "CXXThisExpr", "UnaryExprOrTypeTraitExpr", "CharacterLiteral", "ImplicitValueInitExpr"):
            return
        if k == "DeclRefExpr":
            v = self.var(e["referencedDecl"])
            if v[0] in ("l", "g", "a") and not (is_ptr(e) and v[0] == "a"):
                self.read({v}, W, e)
                if v[0] == "g" and e["referencedDecl"]["id"] in self.N.globals:
                    self.note("global", v[1], e)
            return
        if k == "MemberExpr":
            self.read({("m", e["name"])}, W, e)
            return
        if k == "ArraySubscriptExpr" or k == "UnaryOperator" and e.get("opcode") == "*":
            roots = self.access(e, W, False, e)
            self.read(roots, W, e)
            return
        if k == "BinaryOperator":
            op = e.get("opcode")
            if op == "=":
                self.value(ks[1], W, is_ptr(ks[0]))
                self.keep(ks[0], ks[1], e)
                self.lvalue(ks[0], W, e)
                return
            self.expr(ks[0], W)
            if op in ("&&", "||"):
                self.expr(ks[1], set(W))
            else:
                self.expr(ks[1], W)
            return
        if k == "CompoundAssignOperator":
            self.expr(ks[1], W)
            self.lvalue(ks[0], W, e, also_read=True)
            return
        if k == "UnaryOperator":
            if e.get("opcode") in ("++", "--"):
                self.lvalue(ks[0], W, e, also_read=True)
            elif e.get("opcode") == "&":
                t = strip(ks[0])
                if t["kind"] == "ArraySubscriptExpr":
                    self.index_ctx += 1
                    self.expr(kids(t)[1], W)
                    self.index_ctx -= 1
            else:
                self.expr(ks[0], W)
            return
        if k == "ConditionalOperator":
            self.expr(ks[0], W)
            a, b = set(W), set(W)
            self.expr(ks[1], a)
            self.expr(ks[2], b)
            W |= a & b
            return
        if k == "InitListExpr":
            for x in ks:
                self.expr(x, W)
            return
        if k == "CXXNewExpr":
            for x in ks:
                self.expr(x, W)
            return
        if k == "CXXDeleteExpr":
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            self.call(e, W)
            return
        if k == "CXXConstructExpr" or k == "CXXDefaultArgExpr":
            for x in ks:
                self.expr(x, W)
            return
        raise Undecided("line %s: %s" % (self.line(e), k))

    def keep(self, target, value, n):
        """a pointer kept in a member or a global"""
        if not is_ptr(target):
            return
        for v in self.vars_of(target):
            if v[0] in ("m", "g"):
                for r in self.points(value):
                    if r[0] == "p":
                        self.out.keeps.add((r, v))
                        self.note("keeps", "%s in %s" % (self.f.params[r[1]].get("name"), v[1]), n)
                    if r[0] == "new":
                        self.out.allocates.add(v)

    def call(self, e, W):
        ks = kids(e)
        callee, args = strip(ks[0]), ks[1:]
        fs = None
        if callee["kind"] == "MemberExpr":
            name = callee["name"]
            d = callee.get("referencedMemberDecl")
            fs = [self.N.ids.get(d)]
            base = strip(kids(callee)[0]) if kids(callee) else None
            if base is not None and base["kind"] != "CXXThisExpr":
                raise Undecided("line %s: a call on another object" % self.line(e))
        elif callee["kind"] == "DeclRefExpr":
            d = callee["referencedDecl"]
            name = d.get("name", "")
            v = self.var(d)
            if v[0] == "f":
                fs = [v[1]]
            else:
                fs = [r[1] for r in self.points(callee) if r[0] == "f"]
                self.read({v} if v[0] in ("l", "g") else set(), W, e)
        elif callee["kind"] == "UnaryOperator" and callee.get("opcode") == "*":
            fs = [r[1] for r in self.points(kids(callee)[0]) if r[0] == "f"]
            name = "?"
        else:
            raise Undecided("line %s: a call of %s" % (self.line(e), callee["kind"]))
        for a in args:
            (self.expr_ptr if is_ptr(strip(a)) or is_ptr(a) else self.expr)(a, W)
        known = [self.N.fns[x] for x in fs if x in self.N.fns and self.N.fns[x].body is not None]
        if known and len(known) == len(fs):
            must = None
            may, exp = set(), set()
            for g in known:
                s = self.N.summary(g)
                if s is None:
                    raise Undecided("calls %s" % g.full)

                def sub(roots, exact=False):
                    out = set()
                    for r in roots:
                        if r[0] == "p":
                            t = self.points(args[r[1]])
                            if exact and len(t) != 1:
                                continue
                            out |= t
                        elif r[0] == "a":
                            pass
                        else:
                            out.add(r)
                    return out

                may |= sub(s.may)
                exp |= sub(s.exposed)
                m = sub(s.must, True)
                must = m if must is None else must & m
                for r, v in s.keeps:
                    for q in self.points(args[r[1]]):
                        if q[0] == "p":
                            self.out.keeps.add((q, v))
                self.out.allocates |= s.allocates
                for i, a in enumerate(args):
                    if is_ptr(strip(a)):
                        o = self.offset(a)
                        for q in self.points(a):
                            if self.loop is not None and o is not None and self.N.has(o[1], self.loop["var"]):
                                self.accesses.append((q, o[1], self.loop, ("p", i) in s.may, self.line(e)))
            self.read(exp, W, e)
            for r in may:
                self.out.may.add(r)
            W |= must or set()
            return
        short = (name or "").split("::")[-1]
        if short in PURE:
            return
        if short in FILLS or short in COPIES:
            d = FILLS.get(short, COPIES.get(short))
            for i, a in enumerate(args):
                if i != d and is_ptr(strip(a)):
                    self.read(self.points(a), W, e)
            roots = self.points(args[d])
            self.write(roots, W, e)
            return
        if short == "fill":
            self.write(self.points(args[0]), W, e)
            return
        if short in ("operator<<", "printf", "endl"):
            self.note("prints", short, e)
            return
        raise Undecided("line %s: calls %s" % (self.line(e), name))

    # ------------------------------------------------------------------ statements
    def stmt(self, s, W):
        """must-written roots after the statement, or None if it does not end normally"""
        if W is None or not s.get("kind"):
            return W
        k = s["kind"]
        ks = kids(s)
        if k == "CompoundStmt":
            for x in ks:
                W = self.stmt(x, W)
            return W
        if k == "DeclStmt":
            for d in ks:
                if d["kind"] == "VarDecl":
                    W.discard(("l", d["id"]))
                    if kids(d):
                        init = kids(d)[-1]
                        self.value(init, W, is_ptr(d))
                        if d["id"] not in self.statics:
                            W.add(("l", d["id"]))
            return W
        if k == "ReturnStmt":
            for x in ks:
                self.expr(x, W)
            self.ret = W if getattr(self, "ret", None) is None else self.ret & W
            return None
        if k == "IfStmt":
            self.expr(ks[0], W)
            ret = getattr(self, "ret", None)
            a = self.stmt(ks[1], set(W))
            if a is None and self.only_parameters(ks[0]):
                self.ret = ret  # nothing to do for these arguments
            b = self.stmt(ks[2], set(W)) if len(ks) > 2 else set(W)
            if a is None or b is None:
                return b if a is None else a
            return a & b
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            return self.loop_stmt(s, W)
        if k in ("BreakStmt", "ContinueStmt"):
            return None
        if k == "NullStmt":
            return W
        if k == "SwitchStmt" or k == "CXXForRangeStmt" or k == "CXXTryStmt":
            raise Undecided("line %s: %s" % (self.line(s), k))
        self.expr(s, W)
        return W

    def only_parameters(self, e):
        e = strip(e)
        if e["kind"] == "DeclRefExpr":
            return self.var(e["referencedDecl"])[0] == "a"
        if e["kind"] in ("MemberExpr", "CallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr", "CXXThisExpr"):
            return False
        return all(self.only_parameters(k) for k in kids(e))

    def counts_points(self, s):
        """the variable of a for loop that runs up to an integer parameter, if this is one"""
        inner = s.get("inner", [])
        if s["kind"] != "ForStmt" or self.loop is not None or len(inner) != 5 or not inner[2].get("kind"):
            return None
        c = strip(inner[2])
        if c["kind"] != "BinaryOperator" or c.get("opcode") not in ("<", "!=", "<=", ">"):
            return None
        a, b = strip(kids(c)[0]), strip(kids(c)[1])
        if c["opcode"] == ">":
            a, b = b, a
        if a["kind"] == "DeclRefExpr" and b["kind"] == "DeclRefExpr" and b["referencedDecl"]["id"] in self.pidx and "int" in typ(b):
            v = self.var(a["referencedDecl"])
            if v[0] == "l":
                return v
        return None

    def loop_stmt(self, s, W):
        if s["kind"] == "ForStmt":
            init, _, cond, inc, body = (s.get("inner", []) + [{}] * 5)[:5]
        elif s["kind"] == "WhileStmt":
            ks = kids(s)
            init, cond, inc, body = {}, ks[0], {}, ks[-1]
        else:
            ks = kids(s)
            init, cond, inc, body = {}, {}, {}, ks[0]
        if init.get("kind"):
            W = self.stmt(init, W)
        if cond.get("kind"):
            self.expr(cond, W)
        v = self.counts_points(s)
        if v is None or self.f.full not in self.N.entries:
            W2 = self.stmt(body, set(W))
            if inc.get("kind") and W2 is not None:
                self.expr(inc, W2)
            return W2 if W2 is not None else W
        self.N.counts["native loops over points"] += 1
        # one point: nothing that an earlier point left behind may be read
        self.loop = dict(var=v, node=s)
        sub = Walk(self.N, self.f)
        sub.pt, sub.locals, sub.pidx, sub.statics, sub.defs = self.pt, self.locals, self.pidx, self.statics, self.defs
        sub.loop = self.loop
        W3 = {v}
        sub.stmt(body, W3)
        changed = sub.out.may
        for r in sorted(changed & sub.value_exposed(), key=str):
            self.note("carried", self.locals[r[1]].get("name") if r[0] == "l" else r[1], s)
        self.loops.append((v, s))
        W2 = self.stmt(body, set(W))
        if inc.get("kind") and W2 is not None:
            self.expr(inc, W2)
        self.loop = None
        return W2 if W2 is not None else W

    def value_exposed(self):
        """roots read before they are written for this point, other than outputs and counters"""
        out = set()
        for r in self.out.exposed:
            if r[0] in ("p", "new"):
                continue  # arrays: the elements of each point are told apart by their index
            out.add(r)
        return out


class Example:
    """the index of the small example with defects"""

    repo = os.path.join(HERE, "cxx", "example")


_cache = {}


def analyse(root):
    if root not in _cache:
        _cache[root] = Native(root)
    return _cache[root]


# ---------------------------------------------------------------------- rules
def kernels(N):
    """the entry methods with their classes: those that set the object up and those that compute"""
    for key, (owner, pars, calls, lines, rel) in sorted(N.wrappers.items()):
        for c, args in calls:
            f = N.method(owner, c) if owner else None
            if f is not None and N.sums.get(f.full) is not None:
                yield owner, f, N.sums[f.full], bool(N.sums[f.full].allocates), key[2], pars, args


def wrap(fn):
    def rule(scx):
        N = analyse(scx.ix.repo)
        scx.n("native functions", N.counts["native functions"])
        scx.n("native array accesses", N.counts["native array accesses"])
        seen = set()
        for f in fn(N, scx):
            if f.key not in seen:
                seen.add(f.key)
                yield f
        for u in N.undecided:
            scx.undecided.append(("native code", u))

    rule.native = True
    return rule


def finding(rule, f, what, line, msg):
    from rules import Finding

    return Finding(rule, f.full, what, f.file, line or f.node.get("_line") or 0, msg)


@wrap
def keeps_nothing(N, scx):
    """a kernel copies what it is given; it keeps no pointer to an array of its caller"""
    for owner, f, s, setup, name, pars, args in kernels(N):
        scx.n("native entry points")
        for r, v in sorted(s.keeps, key=str):
            yield finding("C02-native-keeps", f, "%s kept in %s" % (f.params[r[1]].get("name"), v[1]), None, "keeps a pointer to the array %s of its caller in %s" % (f.params[r[1]].get("name"), v[1]))


@wrap
def predicts_purely(N, scx):
    """computing changes no part of the kernel that a computation reads"""
    ks = list(kernels(N))
    for owner, f, s, setup, name, pars, args in ks:
        scx.n("native entry points")
        if setup:
            continue
        for r in sorted(s.may, key=str):
            if r[0] == "m" and any(r in t.exposed for o, g, t, su, *_ in ks if o == owner and not su):
                yield finding("C03-native-state", f, r[1], None, "changes %s, which a later computation reads" % r[1])


@wrap
def setup_afresh(N, scx):
    """setting a kernel up again depends on the arguments alone, and sets everything that computing reads"""
    ks = list(kernels(N))
    for owner, f, s, setup, name, pars, args in ks:
        if not setup:
            continue
        scx.n("native entry points")
        for r in sorted(s.exposed, key=str):
            if r[0] == "m":
                yield finding("C04-native-leftover", f, r[1], None, "reads %s as an earlier setup left it" % r[1])
        ctor = N.sums.get("%s::%s" % (owner, owner))
        for o, g, t, su, *_ in ks:
            if o == owner and not su:
                for r in sorted(t.exposed - s.must, key=str):
                    if r[0] == "m":
                        yield finding("C04-native-not-set-up", g, r[1], None, "reads %s, which setup does not set on every path" % r[1])


@wrap
def points_apart(N, scx):
    """each point of a computation is computed from that point alone"""
    for owner, f, s, setup, name, pars, args in kernels(N):
        if setup:
            continue
        w = f.walk
        scx.n("native loops over points", len(w.loops))
        for kind, what, line in f.notes:
            if kind == "carried":
                yield finding("C13-native-carried", f, what, line, "%s is carried from one point to the next" % what)
        per = {a[0] for a in w.accesses if a[0][0] == "p" and a[2] is not None and N.has(a[1], a[2]["var"])}
        for r, p, loop, wr, line in w.accesses:
            if r not in per:
                continue
            scx.n("native accesses to the points")
            nm = f.params[r[1]].get("name")
            if loop is None:
                if not wr and p is not None:
                    yield finding("C13-native-fixed", f, nm, line, "reads %s outside of the loop over the points" % nm)
                continue
            if p is None:
                continue
            v = "%s%s" % loop["var"]
            own = [m for m in p if v in m]
            if not own:
                if all(not x.startswith("l") or w.inner_counter(x[1:], loop) for m in p for x in m) and not any(x.startswith("e") for m in p for x in m):
                    yield finding("C13-native-fixed", f, nm, line, "the same element of %s is used for every point" % nm)
            elif len(own) == 1:
                rest = tuple(sorted(own[0]))
                i = rest.index(v)
                stride = rest[:i] + rest[i + 1:]
                if v not in stride and any(m == stride for m in p if v not in m) and (stride or any(c for m, c in p.items() if m == ())):
                    yield finding("C13-native-shifted", f, nm, line, "the element of %s belongs to a neighbouring point" % nm)


@wrap
def no_statics(N, scx):
    """kernels share nothing through static or global variables"""
    for n, f in sorted(N.by_name.items()):
        scx.n("native functions examined for shared variables")
        for kind, what, line in f.notes:
            if kind in ("static", "global"):
                yield finding("C23-native-shared", f, what, line, "uses the %s variable %s, which all objects of the process share" % (kind, what))


@wrap
def silent(N, scx):
    for n, f in sorted(N.by_name.items()):
        scx.n("native functions examined for printing")
        for kind, what, line in f.notes:
            if kind == "prints":
                yield finding("C20-native-prints", f, what, line, "prints")


@wrap
def complete(N, scx):
    """what a computation returns is written on every path"""
    for owner, f, s, setup, name, pars, args in kernels(N):
        if setup:
            continue
        scx.n("native entry points")
        for r in sorted(s.may - s.must, key=str):
            if r[0] == "p":
                nm = f.params[r[1]].get("name")
                yield finding("C24-native-not-written", f, nm, None, "some path leaves %s unwritten" % nm)


def written(root):
    """{(module, class, method): the wrapper parameters it may write}"""
    N = analyse(root)
    out = {}
    for (mod, cls, name), (owner, pars, calls, lines, rel) in N.wrappers.items():
        for c, args in calls:
            f = N.method(owner, c) if owner else None
            s = N.sums.get(f.full) if f is not None else None
            if s is None:
                continue
            for r in s.may:
                if r[0] == "p" and r[1] < len(args):
                    m = re.match(r"&?\s*(\w+)", args[r[1]])
                    if m and m.group(1) in pars:
                        out.setdefault((mod, cls, name), set()).add(m.group(1))
    return out


if __name__ == "__main__":
    import sys

    N = analyse(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    print(N.counts, N.undecided)
    for n, f in sorted(N.by_name.items()):
        s = N.sums.get(n)
        if s is not None:
            print(n, "may", sorted(s.may, key=str), "must", sorted(s.must, key=str), "exposed", sorted(s.exposed, key=str), "keeps", s.keeps, f.notes)
    import rules

    class Ix:
        repo = N.root

    for fn in (keeps_nothing, predicts_purely, setup_afresh, points_apart, no_statics, silent, complete):
        scx = rules.StaticCtx(Ix)
        for f in fn(scx):
            print(f.text())
        print(scx.count)
    print(written(N.root))
