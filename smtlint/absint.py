"""Whole-program abstract interpreter for the SMT library (context-sensitive, flow-sensitive heap).

It never runs library code: it walks the syntax trees of /repo's current sources over the abstract domain of
domain.py, following calls through the resolved class hierarchy, and records events (in-place mutations,
attribute writes, option accesses, random draws, calls of user functions, ...) that the rules query.
"""
import ast
import sys

from domain import *
from index import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo

sys.setrecursionlimit(20000)


DATA_DIMS = {"nt", "nx", "ny", "n", "nlf", "nd"}


def at_least_one(d):
    """the polynomial is certainly positive when every dimension is 1 or more"""
    lin = sum(v for k, v in d if k) if all(v > 0 for k, v in d if k) else None
    return lin is not None and lin + sum(v for k, v in d if not k) >= 1


def ref_key(r):
    """a fixed order of the references of a value"""
    if isinstance(r, tuple):
        return "(" + ",".join(ref_key(x) for x in r) + ")"
    if isinstance(r, int):
        return "%012d" % r
    q = getattr(r, "qual", None)
    if q is not None:
        return str(q)
    if isinstance(r, (str, bytes, float)) or r is None:
        return str(r)
    n = getattr(r, "node", r)
    return "%s:%s" % (type(r).__name__, getattr(n, "lineno", ""))


class Dead(Exception):
    """the current path cannot continue normally (raise / return handled at statement level)"""


# ------------------------------------------------------------------------------------------ heap objects


class Arr:
    __slots__ = ("a", "elem", "ep")
    kind = "arr"

    def __init__(self, a=BOTA, elem=None, ep=E0):
        self.a = a
        self.elem = elem
        self.ep = ep

    def key(self):
        return (self.a, self.elem, self.ep)

    def join(self, o, w=False):
        e = self.elem if o.elem is None else (o.elem if self.elem is None else self.elem.join(o.elem))
        a = self.a.widen(o.a) if w and self.a is not BOTA else self.a.join(o.a)
        ep = self.ep if self.ep == o.ep else self.ep | o.ep
        if e is self.elem and a == self.a and ep == self.ep:
            return self
        return Arr(a, e, ep)


class Seq:
    __slots__ = ("kind", "items", "elem", "ep")

    def __init__(self, kind, items=None, elem=BOT, ep=E0):
        self.kind = kind
        self.items = items
        self.elem = elem
        self.ep = ep

    def key(self):
        return (self.kind, self.items, self.elem, self.ep)

    def all(self):
        v = self.elem
        if self.items is not None:
            for i in self.items:
                v = v.join(i)
        return v

    def join(self, o, w=False):
        j = V.widen if w else V.join
        if self.items is not None and o.items is not None and len(self.items) == len(o.items):
            it = tuple([j(a, b) for a, b in zip(self.items, o.items)])
            ep = self.ep | o.ep
            if ep == self.ep and all([x is y for x, y in zip(it, self.items)]):
                return self
            return Seq(self.kind, it, BOT, ep)
        e, ep = j(self.all(), o.all()), self.ep | o.ep
        if self.items is None and e is self.elem and ep == self.ep:
            return self
        return Seq(self.kind, None, e, ep)


class Dct:
    __slots__ = ("keys", "rest", "factory", "ep", "must")
    kind = "dict"

    def __init__(self, keys=None, rest=BOT, factory=None, ep=E0, must=None):
        self.keys = keys or {}
        self.must = frozenset(self.keys) if must is None else must  # keys that are certainly present
        self.rest = rest  # values stored under unknown keys
        self.factory = factory
        self.ep = ep

    def key(self):
        return (frozenset(self.keys.items()), self.rest, self.ep, self.must)

    def all(self):
        v = self.rest
        for i in self.keys.values():
            v = v.join(i)
        return v

    def join(self, o, w=False):
        j = V.widen if w else V.join
        ks = {}
        new = len(o.keys) != len(self.keys)
        for k, a in self.keys.items():
            b = o.keys.get(k)
            v = ks[k] = a if b is None or a is b else j(a, b)
            new = new or v is not a
        for k, b in o.keys.items():
            if k not in ks:
                ks[k], new = b, True
        rest, f, ep, must = j(self.rest, o.rest), self.factory or o.factory, self.ep | o.ep, self.must & o.must
        if not new and rest is self.rest and f is self.factory and ep == self.ep and must == self.must:
            return self
        return Dct(ks, rest, f, ep, must)


class Inst:
    __slots__ = ("cls", "attrs", "eps", "may")
    kind = "inst"

    def __init__(self, cls, attrs=None, eps=None, may=E0):
        self.cls = cls
        self.attrs = attrs or {}
        self.eps = eps or {}
        self.may = may  # attributes some path leaves without a value

    def key(self):
        return (self.cls.qual, frozenset(self.attrs.items()), frozenset(self.eps.items()), self.may)

    def join(self, o, w=False):
        j = V.widen if w else V.join
        at, new = dict(self.attrs), False
        for k, v in o.attrs.items():
            u = at.get(k)
            if u is None:
                at[k], new = v, True
            elif u is not v:
                x = j(u, v)
                if x is not u:
                    at[k], new = x, True
        ep = dict(self.eps)
        for k, v in o.eps.items():
            u = ep.get(k, E0)
            if u is not v and not v <= u:
                ep[k], new = u | v, True
        # absent on one side: the attribute may be missing
        may = self.may | o.may
        if len(self.attrs) != len(at) or len(o.attrs) != len(at):
            may = may | (frozenset(at) - frozenset(self.attrs)) | (frozenset(at) - frozenset(o.attrs))
        if not new and may == self.may:
            return self
        return Inst(self.cls, at, ep, may)


class Frame:
    __slots__ = ("vars", "parent", "fi", "glob")
    kind = "frame"

    def __init__(self, vars, parent, fi, glob=E0):
        self.vars = vars
        self.parent = parent
        self.fi = fi
        self.glob = glob

    def key(self):
        return (frozenset(self.vars.items()), self.parent)

    def join(self, o, w=False):
        j = V.widen if w else V.join
        vs, new = dict(self.vars), False
        for k, v in o.vars.items():
            u = vs.get(k)
            if u is None:
                vs[k], new = v, True
            elif u is not v:
                x = j(u, v)
                if x is not u:
                    vs[k], new = x, True
        if not new:
            return self
        return Frame(vs, self.parent, self.fi, self.glob)


BUILTIN_KINDS = {"list": list, "tuple": tuple, "dict": dict, "set": set}


class Opts:
    """OptionsDictionary instance: declared names and current (abstract) values."""

    __slots__ = ("decl", "vals", "ep")
    kind = "opts"

    def __init__(self, decl=None, vals=None, ep=None):
        self.decl = decl or {}
        self.vals = vals or {}
        self.ep = ep or {}

    def key(self):
        return (frozenset(self.decl), frozenset(self.vals.items()), frozenset(self.ep.items()))

    def join(self, o, w=False):
        j = V.widen if w else V.join
        d = dict(self.decl)
        d.update(o.decl)
        vs = dict(self.vals)
        for k, v in o.vals.items():
            vs[k] = j(vs[k], v) if k in vs else v
        ep = dict(self.ep)
        for k, v in o.ep.items():
            ep[k] = ep.get(k, E0) | v
        return Opts(d, vs, ep)


def same(a, b):
    return a is b or (a.kind == b.kind and a.key() == b.key())


class St:
    __slots__ = ("heap",)

    def __init__(self, heap):
        self.heap = heap

    def copy(self):
        return St(dict(self.heap))

    def join(self, o, w=False):
        h = self.heap
        get, oh = h.get, o.heap
        out = None
        for k in [k for k, v in oh.items() if get(k) is not v]:
            u, v = get(k), oh[k]
            if u is None:
                x = v
            elif u.kind == v.kind:
                x = u.join(v, w)
                if x is u:
                    continue
            else:
                continue
            if out is None:
                out = dict(h)
            out[k] = x
        return St(dict(h) if out is None else out)

    def leq(self, o):
        """o's information already contained in self"""
        get, oh = self.heap.get, o.heap
        for k in [k for k, v in oh.items() if get(k) is not v]:
            u = get(k)
            if u is None or not same(u, oh[k]):
                return False
        return True


def join_states(sts, w=False):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    out = sts[0]
    for s in sts[1:]:
        out = out.join(s, w)
    return out


class Event:
    __slots__ = ("kind", "data", "node", "fi", "stack", "phase")

    def __init__(self, kind, data, node, fi, stack, phase):
        self.kind = kind
        self.data = data
        self.node = node
        self.fi = fi
        self.stack = stack
        self.phase = phase

    def where(self):
        return "%s:%s" % (self.fi.module.rel if self.fi else "<harness>", getattr(self.node, "lineno", 0))

    def path(self):
        return " > ".join(self.stack)

    def __repr__(self):
        return "%s %s at %s in %s [%s] via %s" % (
            self.kind,
            self.data,
            self.where(),
            self.fi.qual if self.fi else "-",
            self.phase,
            self.path(),
        )


class Ctl:
    def __init__(self, fi):
        self.fi = fi
        self.returns = []
        self.marks = E0  # marks of the tests that decided that this statement runs
        self.loops = []
        self.yield_hook = None


ANY, DEFAULT = object(), object()
MAXDEPTH = 60
PUBLIC_RESULTS = {"predict_values", "predict_derivatives", "predict_variances", "__call__", "_compute"}
MAXREC = 2


class Interp:
    def __init__(self, index):
        self.ix = index
        self.meta = {}
        self._ids = {}
        self._ctxs = {}
        self.ctx = 0
        self.phase = "init"
        self.events = {}
        self.cur_stmt = None
        self.stack = []  # (FuncInfo, call node)
        self.ctl = None
        self.trys = []
        self.frame = None
        self.modframes = {}
        self.st0 = St({})
        self.ncalls = 0
        self.unit_ops = 0
        self.funcs_seen = set()
        self.trace = None
        self.real_options = False
        self._said = {}  # what was executed, if asked for
        self.alt = None  # which alternative of a value is being evaluated (see alts)
        self.unresolved = {}
        self.config = {}
        self.decls = {}
        self.budget = None
        self.hooks = {}
        self.sweeps, self.sweeping = {}, set()
        from npmodel import NP

        self.np = NP(self)

    # -------------------------------------------------------------------------------- bookkeeping
    def event(self, kind, data, node):
        fi = self.ctl.fi if self.ctl else None
        if fi is None or not fi.node:
            fi = None
        key = (kind, data, id(node), self.phase)
        if key not in self.events:
            self.events[key] = Event(
                kind, data, node, fi, [f.qual.split(":")[1] for f, _ in self.stack], self.phase
            )

    def evs(self, *kinds):
        return [e for e in self.events.values() if e.kind in kinds]

    def alts(self, refs):
        """the alternatives of a value, in a fixed order; what the evaluation of one of them creates is kept
        apart from what the others create"""
        if len(refs) < 2:
            return refs
        return self._alts(sorted(refs, key=ref_key))

    def _alts(self, refs):
        save = self.alt
        try:
            for i, r in enumerate(refs):
                self.alt = save if not i else (save, min(i, 3)) if not isinstance(save, tuple) else save
                yield r
        finally:
            self.alt = save

    def new(self, st, obj, node, extra=None, origin=None):
        k = (id(node), self.ctx, extra, obj.kind, self.alt)
        loc = self._ids.get(k)
        if loc is None:
            loc = len(self._ids) + 1
            self._ids[k] = loc
            self.meta[loc] = {"origin": origin, "phase": self.phase, "node": node, "fi": self.ctl.fi if self.ctl else None, "keep": node}
        st.heap[loc] = obj
        return ("o", loc)

    def arr(self, st, node, a=TOPA, shape=None, extra=None, elem=None, origin=None):
        if any(isinstance(t, tuple) and t[0] == "npts" for t in a.tags):
            a = a.with_(tags=frozenset(t for t in a.tags if not (isinstance(t, tuple) and t[0] == "npts")))
        r = self.new(st, Arr(a, elem), node, extra, origin)
        return V(refs=frozenset([r]), shape=shape)

    def mkseq(self, st, node, kind, items=None, elem=BOT, extra=None, origin=None):
        return V(refs=frozenset([self.new(st, Seq(kind, None if items is None else tuple(items), elem), node, extra, origin)]))

    def mkdict(self, st, node, keys=None, rest=BOT, factory=None, extra=None, origin=None, must=None):
        return V(refs=frozenset([self.new(st, Dct(keys, rest, factory, E0, must), node, extra, origin)]))

    def obj(self, st, r):
        if r[0] == "o":
            return st.heap.get(r[1])
        return None

    def origin(self, r):
        return self.meta[r[1]]["origin"] if r[0] == "o" else None

    # element attributes of a value (arrays: from heap; sequences: joined elements)
    def at(self, st, v, depth=0):
        a = v.a
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is None:
                if r[0] != "o":
                    continue
                a = a.join(TOPA)
            elif o.kind == "arr":
                a = a.join(o.a)
                if o.elem is not None and depth < 3:
                    a = a.join(self.at(st, o.elem, depth + 1))
            elif o.kind in ("list", "tuple", "set") and depth < 4:
                a = a.join(self.at(st, o.all(), depth + 1))
            elif o.kind == "dict" and depth < 3:
                a = a.join(self.at(st, o.all(), depth + 1))
        if v.unk:
            a = a.join(TOPA)
        return a

    def has_kind(self, st, v, *kinds):
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is not None and o.kind in kinds:
                return True
        return False

    def is_scalar(self, v):
        return not v.refs and not v.unk

    # -------------------------------------------------------------------------------- mutation
    def mutated(self, st, r, node, how):
        """record an in-place modification of heap object r"""
        if r[0] != "o":
            return
        m = self.meta[r[1]]
        self.event("mutate", (r[1], m["origin"], m["phase"], how), node)

    def set_arr(self, st, r, a, node, how, strong=True):
        o = self.obj(st, r)
        self.mutated(st, r, node, how)
        if o is not None and o.kind == "arr":
            st.heap[r[1]] = Arr(a if strong else o.a.join(a), o.elem, frozenset([self.phase]) if strong else o.ep | {self.phase})

    # -------------------------------------------------------------------------------- modules
    def module_frame(self, m):
        if m.name in self.modframes:
            return self.modframes[m.name]
        fr = self.new(self.st0, Frame({}, None, None), m.tree, "module", origin=("module", m.name))
        self.modframes[m.name] = fr
        save = (self.ctl, self.frame, self.stack, self.trys, self.ctx, self.phase)
        fi = FuncInfo.__new__(FuncInfo)
        fi.node, fi.module, fi.cls, fi.outer, fi.name, fi.qual, fi.decorators = m.tree, m, None, None, "<module>", m.name + ":<module>", []
        self.ctl, self.frame, self.stack, self.trys, self.phase = Ctl(fi), fr, [(fi, None)], [], "import"
        self.ctx = self._ctx(0, ("module", m.name))
        try:
            body = [s for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) or self._modstmt(s)]
            self.exec_block(body, self.st0)
        except Dead:
            pass
        finally:
            self.ctl, self.frame, self.stack, self.trys, self.ctx, self.phase = save
        return fr

    def _modstmt(self, s):
        if isinstance(s, ast.Try):
            return True
        return False

    def _ctx(self, parent, site):
        k = (parent, site)
        c = self._ctxs.get(k)
        if c is None:
            c = len(self._ctxs) + 1
            self._ctxs[k] = c
        return c

    # -------------------------------------------------------------------------------- names
    def load_name(self, name, st, node):
        fr = self.frame
        while fr is not None:
            f = st.heap.get(fr[1])
            if f is None:
                f = self.st0.heap.get(fr[1])
                if f is None:
                    break
            if name in f.vars:
                return f.vars[name]
            fr = f.parent
        return self.global_name(self.ctl.fi.module, name, st, node)

    def static_ref(self, r):
        if isinstance(r, ClassInfo):
            return ref(("class", r))
        if isinstance(r, FuncInfo):
            return ref(("func", r, None))
        if isinstance(r, ModuleInfo):
            return ref(("mod", r))
        if isinstance(r, tuple):
            return ref(("ext", r[1]))
        return None

    def global_name(self, m, name, st, node):
        v = None
        if name in m.classes or name in m.functions:
            return self.static_ref(self.ix.resolve_name(m, name))
        fr = self.module_frame(m)
        f = st.heap.get(fr[1]) or self.st0.heap.get(fr[1])
        if fr[1] not in st.heap and st is not self.st0:
            for k, o in self.st0.heap.items():
                if k not in st.heap:
                    st.heap[k] = o
            f = st.heap[fr[1]]
        if f is not None and name in f.vars:
            v = f.vars[name]
        if name in m.imports:
            imp = m.imports[name]
            w = None
            r = self.ix.resolve_name(m, name)
            if r is None or isinstance(r, tuple):
                if imp[0] == "from" and imp[1] in self.ix.modules:
                    m2 = self.ix.modules[imp[1]]
                    if m2 is not m:
                        w = self.global_name(m2, imp[2], st, node)
                if w is None:
                    w = ref(("ext", r[1] if r else imp[-1]))
            else:
                w = self.static_ref(r)
            v = w if v is None or w.refs else v
        if v is not None:
            return v
        if name in BUILTINS:
            return ref(("builtin", name))
        if name.startswith("__h_"):
            return ref(("hook", name[4:]))
        return UNK

    def store_name(self, name, v, st):
        f = st.heap[self.frame[1]]
        vs = dict(f.vars)
        vs[name] = v
        if name in f.glob:
            m = self.ctl.fi.module
            fr = self.module_frame(m)
            self.event("global_write", (m.name, name), self.ctl.fi.node)
        st.heap[self.frame[1]] = Frame(vs, f.parent, f.fi, f.glob)

    # -------------------------------------------------------------------------------- statements
    def exec_block(self, body, st):
        for s in body:
            try:
                st = self.exec_stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
            if self.trys:
                t = self.trys[-1]
                if t["depth"] == len(self.stack):
                    t["snaps"].append(st.copy())
        return st

    def exec_stmt(self, s, st):
        self.cur_stmt = s
        if self.trace is not None and self.ctl is not None and self.ctl.fi.name != "main":
            self.trace.add((self.ctl.fi.qual, self.said(s)))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return st
        return m(s, st)

    def said(self, s):
        """what a statement says, wherever it stands (of compound statements the head; tests only select)"""
        d = self._said.get(id(s))
        if d is None:
            if isinstance(s, (ast.If, ast.While)):
                d = ""
            elif isinstance(s, (ast.For, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
                d = type(s).__name__
            else:
                d = ast.dump(s)
            self._said[id(s)] = d
        return d

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                v = self.static_ref(self.ix.modules[a.name]) if a.name in self.ix.modules else ref(("ext", a.name))
                self.store_name(a.asname, v, st)
            else:
                top = a.name.split(".")[0]
                v = self.static_ref(self.ix.modules[top]) if top in self.ix.modules else ref(("ext", top))
                self.store_name(top, v, st)
        return st

    def s_ImportFrom(self, s, st):
        base = self.ctl.fi.module.resolve_from(s)
        for a in s.names:
            v = None
            if base in self.ix.modules:
                r = self.ix.resolve_name(self.ix.modules[base], a.name)
                if r is None and base + "." + a.name in self.ix.modules:
                    r = self.ix.modules[base + "." + a.name]
                v = self.static_ref(r) if r is not None else self.global_name(self.ix.modules[base], a.name, st, s)
            else:
                v = ref(("ext", base + "." + a.name))
            self.store_name(a.asname or a.name, v, st)
        return st

    def s_Global(self, s, st):
        f = st.heap[self.frame[1]]
        st.heap[self.frame[1]] = Frame(f.vars, f.parent, f.fi, f.glob | frozenset(s.names))
        return st

    def s_Nonlocal(self, s, st):
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st)
        self.ev(s.value, st)
        return st

    def do_yield(self, y, st):
        v = self.ev(y.value, st) if y.value is not None else NONE
        h = self.ctl.yield_hook
        if h is not None:
            return h(v, st)
        self.ctl.returns.append((v, st.copy()))
        return st

    def s_FunctionDef(self, s, st):
        fi = self.nested_fi(s)
        for d in s.args.defaults + [d for d in s.args.kw_defaults if d]:
            self.ev(d, st)
        self.store_name(s.name, ref(("func", fi, self.frame)), st)
        return st

    def nested_fi(self, node):
        f = self.ctl.fi
        n = getattr(f, "nested", {}).get(node)
        if n is None:
            n = FuncInfo(node, f.module, outer=f)
            n.nested = {}
            self.ix._nested(n)
            if not hasattr(f, "nested"):
                f.nested = {}
            f.nested[node] = n
        return n

    def s_ClassDef(self, s, st):
        self.store_name(s.name, UNK, st)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if self.ctl.fi.name in PUBLIC_RESULTS:
            self.event("ret", (self.ctl.fi.name, v.shape, None in v.consts, v.alts), s)
        if self.ctl.marks:
            v = self.marked(v, st, self.ctl.marks)
        self.ctl.returns.append((v, st))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            try:
                self.ev(s.exc, st)
            except Dead:
                pass
        self.raised(st)
        return None

    def die(self):
        raise Dead()

    def raised(self, st):
        if self.cur_stmt is not None:
            self.event("raise", None, self.cur_stmt)
        if self.trys:
            self.trys[-1]["snaps"].append(st.copy())

    def s_Assert(self, s, st):
        v = self.ev(s.test, st)
        t = self.truth(v, st)
        if t == {False}:
            self.raised(st)
            return None
        if False in t:
            self.raised(st)
        return self.refine(s.test, True, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                self.ev(t.slice, st)
                for r in self.alts(b.refs):
                    o = self.obj(st, r)
                    if o is None:
                        continue
                    self.mutated(st, r, t, "del")
                    if o.kind == "dict":
                        k = self.ev(t.slice, st).single_const()
                        if k is not NOCONST and k in o.keys:
                            ks = dict(o.keys)
                            ks.pop(k)
                            st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep | {self.phase}, o.must - {k})
                    elif o.kind == "list":
                        st.heap[r[1]] = Seq("list", None, o.all(), o.ep | {self.phase})
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for r in self.alts(b.refs):
                    o = self.obj(st, r)
                    if o is not None and o.kind == "inst":
                        self.event("attr_write", (r[1], t.attr, o.cls.name, self.meta[r[1]]["phase"]), t)
                        if len(b.refs) == 1 and t.attr in o.attrs:
                            at, ep = dict(o.attrs), dict(o.eps)
                            at.pop(t.attr)
                            ep.pop(t.attr, None)
                            st.heap[r[1]] = Inst(o.cls, at, ep, o.may - {t.attr})
        return st

    def inst_name(self, st, r):
        o = self.obj(st, r)
        return o.cls.name if o is not None and o.kind == "inst" else "?"

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st, node, any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.set_attr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            clamp = self.clamp(t, b, v, st)
            self.set_item(b, k, v, st, t)
            mixed = self.mask_tags(k, st)
            if mixed:
                for r in self.alts(b.refs):
                    o = self.obj(st, r)
                    if o is not None and o.kind == "arr":
                        st.heap[r[1]] = Arr(o.a.with_(tags=o.a.tags | mixed), o.elem, o.ep)
            if clamp is not None:
                loc, a = clamp
                o = st.heap.get(loc)
                st.heap[loc] = Arr(a.with_(tags=o.a.tags), o.elem, o.ep)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def compare_of(self, e):
        """(left, operator, right) of a comparison, also when it was stored in a local variable first"""
        if isinstance(e, ast.Name) and isinstance(self.ctl.fi.node, ast.FunctionDef):
            defs = [s for s in ast.walk(self.ctl.fi.node) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for x in s.targets)]
            if len(defs) != 1:
                return None
            e = defs[0].value
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return e.left, type(e.ops[0]).__name__, e.comparators[0]
        return None

    def mask_tags(self, k, st):
        """the marks of an index that combine points"""
        out = E0
        vs = [k]
        for r in self.alts(k.refs):
            o = self.obj(st, r)
            if o is not None and o.kind == "tuple" and o.items is not None:
                vs += list(o.items)
        for v in vs:
            out |= frozenset(t for t in self.at(st, v).tags if isinstance(t, tuple) and t[0] == "mix")
        return out

    def mask_test(self, t):
        """the comparison that selects the elements of t: a[a < c] = d, or m = a < c; a[m] = d"""
        sl = t.slice
        if isinstance(sl, ast.Name) and isinstance(self.ctl.fi.node, (ast.FunctionDef, ast.Module)):
            defs = [s for s in ast.walk(self.ctl.fi.node) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == sl.id]
            if len(defs) != 1:
                return None
            d = ast.unparse(t.value)
            for s in ast.walk(self.ctl.fi.node):
                if isinstance(s, (ast.Assign, ast.AugAssign)) and defs[0].lineno < s.lineno < t.lineno:
                    if any(ast.unparse(x).split("[")[0] == d.split("[")[0] for x in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                        return None
            sl = defs[0].value
        if isinstance(sl, ast.Compare) and len(sl.ops) == 1:
            l, r, op = sl.left, sl.comparators[0], type(sl.ops[0]).__name__
            if ast.unparse(r) == ast.unparse(t.value):
                l, r = r, l
                op = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
            if ast.unparse(l) == ast.unparse(t.value):
                return op, r
        return None

    def clamp(self, t, b, v, st):
        """a[a < c] = d leaves no element below min(c, d)"""
        if len(b.refs) != 1 or b.unk:
            return None
        r = next(iter(b.refs))
        o = self.obj(st, r)
        if o is None or o.kind != "arr" or o.elem is not None:
            return None
        m = self.mask_test(t)
        if m is None:
            return None
        op, c = m
        c = self.at(st, self.ev(c, st))
        d = self.at(st, v)
        a = o.a
        if a is BOTA or c is BOTA or d is BOTA:
            return None
        if op in ("Lt", "LtE"):
            return r[1], Abs(a.unit, max(a.lo, min(c.lo, d.lo)), max(a.hi, d.hi), a.tags)
        if op in ("Gt", "GtE"):
            return r[1], Abs(a.unit, min(a.lo, d.lo), min(a.hi, max(c.hi, d.hi)), a.tags)
        return None

    def unpack(self, v, n, st, node, star=False):
        outs = [BOT] * n
        got = False
        if v.dim is not None and False:
            pass
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is not None and o.kind in ("tuple", "list") and o.items is not None and len(o.items) == n and not star:
                outs = [a.join(b) for a, b in zip(outs, o.items)]
                got = True
            elif o is not None and o.kind in ("tuple", "list") and o.items is not None and not star:
                self.raised(st)  # ValueError: wrong number of values
                if len(v.refs) == 1 and not v.unk and not v.prim:
                    raise Dead()
                got = True
            elif o is not None and o.kind in ("tuple", "list", "set", "dict"):
                e = self.iter_elem(ref(r), st, node)
                outs = [a.join(e) for a in outs]
                got = True
            elif o is not None and o.kind == "arr":
                if o.a.pos == LIM and n == 2 and v.shape and v.shape[0] == sym_const(2):
                    # the lower limits, the upper limits
                    for i, p in enumerate((P_L, P_H)):
                        e = o.a.with_(pos=p)
                        outs[i] = outs[i].join(V(prim=True, a=e) if len(v.shape) == 1 else self.arr(st, node, e, shape=v.shape[1:], extra=("limit", i)))
                else:
                    e = self.iter_elem(V(refs=frozenset([r]), shape=v.shape), st, node)
                    outs = [a.join(e) for a in outs]
                got = True
            else:
                outs = [a.join(UNK) for a in outs]
                got = True
        if v.unk or v.prim or not got:
            outs = [a.join(UNK) for a in outs]
        return outs

    def set_attr(self, b, attr, v, st, node):
        inst = [r for r in b.refs if r[0] == "o"]
        strong = len(b.refs) == 1 and not b.unk
        for r in self.alts(b.refs):
            if r[0] == "class":
                self.event("class_write", (r[1].qual, attr), node)
                continue
            if r[0] == "mod":
                self.event("global_write", (r[1].name, attr), node)
                continue
            if r[0] == "ext":
                self.event("ext_write", (r[1], attr), node)
                continue
            o = self.obj(st, r)
            if o is None:
                continue
            if o.kind == "inst":
                at = dict(o.attrs)
                ep = dict(o.eps)
                # property setters are not used by the library
                e = frozenset([self.phase])
                sl = v.slot("a", r[1], attr)
                if sl is not None:
                    # the value read from this attribute is put back
                    self.event("restore", (r[1], "attr", o.cls.name, attr, sl[3] == o.eps.get(attr)), node)
                    e = sl[3]
                w = v.at_src(("a", r[1], attr), True)
                at[attr] = w if strong or attr not in at else at[attr].join(w)
                ep[attr] = e if strong else ep.get(attr, E0) | e
                st.heap[r[1]] = Inst(o.cls, at, ep, o.may - {attr} if attr in o.may else o.may)
                self.event("attr_write", (r[1], attr, o.cls.name, self.meta[r[1]]["phase"]), node)
            elif o.kind == "arr":
                if attr in ("shape", "flat"):
                    self.set_arr(st, r, o.a, node, "." + attr + "=")
            elif o.kind == "opts":
                self.event("opts_attr_write", (r[1], attr), node)

    def set_item(self, b, k, v, st, node):
        kc = k.consts if k.all_consts() else None
        single = k.single_const()
        strong = len(b.refs) == 1 and not b.unk
        for r in self.alts(b.refs):
            o = self.obj(st, r)
            if r[0] == "odecl":
                oo = self.obj(st, r[1])
                self.event("opts_internal", (r[2], "setitem"), node)
                c = single
                if c is not NOCONST and oo is not None:
                    d = dict(oo.decl)
                    vs = dict(oo.vals)
                    if r[2] == "_declared_entries":
                        d[c] = (id(node),)
                    else:
                        vs[c] = v
                    st.heap[r[1][1]] = Opts(d, vs, oo.ep)
                continue
            if o is None:
                continue
            if o.kind == "arr":
                if o.a.pos is not None and not p_inside(o.a.pos) and self.has_kind(st, k, "arr"):
                    st.heap[r[1]] = Arr(o.a.with_(pos=None), o.elem, o.ep)  # what lay outside may be what is replaced
                if self.index_is_full(node.slice if isinstance(node, ast.Subscript) else None) and strong:
                    self.set_arr(st, r, self.at(st, v), node, "[:]=")
                else:
                    self.set_arr(st, r, self.at(st, v), node, "[..]=", strong=r[1] in self.sweeps and strong)
                if v.refs:
                    o2 = st.heap[r[1]]
                    els = V(refs=frozenset(x for x in v.refs if self.obj(st, x) is None or self.obj(st, x).kind not in ("arr", "list", "tuple")))
                    if els.refs:
                        st.heap[r[1]] = Arr(o2.a, els if o2.elem is None else o2.elem.join(els), o2.ep)
            elif o.kind in ("list", "tuple", "set"):
                self.mutated(st, r, node, "[..]=")
                if o.items is not None and isinstance(single, int) and -len(o.items) <= single < len(o.items):
                    it = list(o.items)
                    it[single] = v if strong else it[single].join(v)
                    st.heap[r[1]] = Seq(o.kind, tuple(it), BOT, o.ep | {self.phase})
                else:
                    st.heap[r[1]] = Seq(o.kind, None, o.all().join(v), o.ep | {self.phase})
            elif o.kind == "dict":
                self.mutated(st, r, node, "[k]=")
                if kc is not None:
                    ks = dict(o.keys)
                    for c in kc:
                        ks[c] = v if strong and single is not NOCONST else (ks[c].join(v) if c in ks else v)
                    must = o.must | {single} if strong and single is not NOCONST else o.must
                    st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep | {self.phase}, must)
                else:
                    st.heap[r[1]] = Dct(o.keys, o.rest.join(v), o.factory, o.ep | {self.phase}, o.must)
            elif o.kind == "opts":
                self.opts_set(r, o, k, v, st, node)
            elif o.kind == "inst":
                f = o.cls.lookup("__setitem__")
                if f:
                    self.call_func(f, None, [ref(r), k, v], {}, node, st)

    def index_is_full(self, sl):
        if sl is None:
            return False
        if isinstance(sl, ast.Slice):
            return sl.lower is None and sl.upper is None and sl.step is None
        if isinstance(sl, ast.Tuple):
            return all(self.index_is_full(e) for e in sl.elts)
        return isinstance(sl, ast.Constant) and sl.value is Ellipsis

    def s_AugAssign(self, s, st):
        cur = self.ev(self.as_load(s.target), st)
        rhs = self.ev(s.value, st)
        arrs = [r for r in cur.refs if self.obj(st, r) is not None and self.obj(st, r).kind == "arr"]
        lists = [r for r in cur.refs if self.obj(st, r) is not None and self.obj(st, r).kind == "list"]
        if isinstance(s.target, ast.Subscript) and not arrs and not lists:
            # element of an array seen as a scalar, or container element
            res = self.np.binop(type(s.op).__name__, cur, rhs, st, s)
            b = self.ev(s.target.value, st)
            k = self.ev(s.target.slice, st)
            self.set_item(b, k, res, st, s.target)
            return st
        res = self.np.binop(type(s.op).__name__, cur, rhs, st, s)
        if arrs:
            ra = self.at(st, res)
            sub = isinstance(s.target, ast.Subscript) and not self.index_is_full(s.target.slice)
            inner = isinstance(s.target, ast.Subscript) and self.container_elem(s.target, st)
            for r in arrs:
                self.set_arr(st, r, ra, s, "%s=" % type(s.op).__name__, strong=(not sub or inner or r[1] in self.sweeps) and len(cur.refs) == 1)
        for r in lists:
            o = self.obj(st, r)
            self.mutated(st, r, s, "+=")
            st.heap[r[1]] = Seq("list", None, o.all().join(self.iter_elem(rhs, st, s)), o.ep | {self.phase})
        keep = frozenset(arrs + lists)
        newv = res.with_(refs=(res.refs if (cur.prim or cur.consts or cur.unk or not keep) else E0) | keep)
        if keep and not (cur.prim or cur.consts or cur.unk):
            newv = V(refs=keep, shape=cur.shape)
        if isinstance(s.target, ast.Name):
            self.store_name(s.target.id, newv, st)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            self.set_attr(b, s.target.attr, newv, st, s.target)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            k = self.ev(s.target.slice, st)
            # x[idx] += v on an array: __setitem__ on the base
            for r in self.alts(b.refs):
                o = self.obj(st, r)
                if o is not None and o.kind in ("list", "dict", "opts", "inst"):
                    self.set_item(ref(r), k, newv, st, s.target)
                elif o is not None and o.kind == "arr":
                    self.set_item(ref(r), k, V(a=self.at(st, res), prim=True), st, s.target)
        return st

    def container_elem(self, t, st):
        b = self.ev(t.value, st)
        return not self.has_kind(st, b, "arr")

    def as_load(self, t):
        return t  # ev ignores ctx

    def s_If(self, s, st):
        v = self.ev(s.test, st)
        t = self.truth(v, st)
        outs = []
        mark = self.control_marks(v, st, s) if len(t) == 2 else E0
        old = self.ctl.marks
        before = st.copy() if mark else None
        left = len(self.ctl.returns)
        self.ctl.marks = old | mark
        if True in t:
            a = self.refine(s.test, True, st.copy() if False in t else st)
            if a is not None:
                outs.append(self.exec_block(s.body, a))
        if False in t:
            b = self.refine(s.test, False, st)
            if b is not None:
                outs.append(self.exec_block(s.orelse, b) if s.orelse else b)
        out = join_states(outs)
        if len(self.ctl.returns) == left or not mark:
            # otherwise what comes next depends on the test as well
            self.ctl.marks = old
        if mark and out is not None:
            self.spread_marks(out, outs, before, mark)
        return out

    def control_marks(self, v, st, n):
        """the marks of a test that looks at other points than the one computed, or at how many there are"""
        tg = self.at(st, v).tags
        out = frozenset(t for t in tg if isinstance(t, tuple) and t[0] == "mix")
        if not self.ctl.loops:
            # (inside a loop such tests divide the work into parts)
            out |= frozenset(("mix",) + t[1:] for t in tg if isinstance(t, tuple) and t[0] == "npts")
        if "ix" in tg or "ixs" in tg:
            out |= {("mix", self.np.where(n), "the position of the point")}
        return out

    def mark_ref(self, r, st, mark, depth=0):
        o = self.obj(st, r)
        if o is None or depth > 3:
            return
        if o.kind == "arr":
            if not mark <= o.a.tags:
                st.heap[r[1]] = Arr(o.a.with_(tags=o.a.tags | mark), o.elem, o.ep)
        elif o.kind in ("list", "tuple", "set"):
            for x in self.alts(o.all().refs):
                self.mark_ref(x, st, mark, depth + 1)

    def marked(self, v, st, mark):
        for r in self.alts(v.refs):
            self.mark_ref(r, st, mark)
        if v.prim or v.consts:
            return v.with_(a=(Abs(None) if v.a is BOTA else v.a).with_(tags=v.a.tags | mark))
        return v

    def spread_marks(self, st, outs, before, mark):
        """what the branches changed depends on the test"""
        outs = [o for o in outs if o is not None]
        changed = {k for o in outs for k, x in o.heap.items() if before.heap.get(k) is not x and k in before.heap}
        for k in sorted(changed, key=str):
            o, b = st.heap.get(k), before.heap[k]
            if o is None:
                continue
            if o.kind == "arr":
                self.mark_ref(("o", k), st, mark)
            elif o.kind == "frame":
                vs = dict(o.vars)
                for nm, v in o.vars.items():
                    # (another view of the same array holds the same numbers)
                    u = b.vars.get(nm)
                    if any(x is not u and not (u is not None and x is not None and x.refs and x.refs <= u.refs and not x.prim and not x.unk) for x in (s.heap[k].vars.get(nm) for s in outs if k in s.heap)):
                        vs[nm] = self.marked(v, st, mark)
                st.heap[k] = Frame(vs, o.parent, o.fi, o.glob)
            elif o.kind in ("list", "tuple", "set"):
                self.mark_ref(("o", k), st, mark)

    def sweeps_of(self, s, it, st):
        """arrays whose every column (row) the loop replaces: object -> its state before the loop"""
        out = {}
        if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.args and not s.iter.keywords) or s.orelse:
            return out
        off, var, over = 0, s.target, it.shape
        if s.iter.func.id == "enumerate" and isinstance(var, ast.Tuple) and len(var.elts) == 2 and len(s.iter.args) == 1:
            var, over = var.elts[0], self.ev(s.iter.args[0], st).shape
        elif s.iter.func.id != "range":
            return out
        if not isinstance(var, ast.Name):
            return out
        if len(s.iter.args) == 2 and isinstance(s.iter.args[0], ast.Constant):
            off = s.iter.args[0].value
        elif len(s.iter.args) != 1:
            return out
        for a in s.body:
            t = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else a.target if isinstance(a, ast.AugAssign) else None
            if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)):
                continue
            el = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            ax = [i for i, e in enumerate(el) if not (isinstance(e, ast.Slice) and e.lower is None and e.upper is None and e.step is None)]
            if len(ax) != 1:
                continue
            e = el[ax[0]]
            k = 0
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.right, ast.Constant):
                e, k = e.left, e.right.value
            if not (isinstance(e, ast.Name) and e.id == var.id and k == off):
                continue
            name, key = t.value.id, ast.dump(t.slice)
            uses = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name]
            good = [n.value for b in s.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and ast.dump(n.slice) == key]
            if not all(any(u is g for g in good) for u in uses) or any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for b in s.body for n in ast.walk(b)):
                continue
            v = self.ev(t.value, st)
            if len(v.refs) > 1 and not v.unk and not v.prim and not v.alts and all(r[0] == "o" and self.obj(st, r) is not None and self.obj(st, r).kind == "arr" for r in v.refs):
                # one of several arrays: its stand-in (only the units are of interest here)
                v = self.arr(st, t, self.at(st, v), shape=v.shape, extra="stand-in")
                self.store_name(name, v, st)
            o = self.obj(st, next(iter(v.refs))) if len(v.refs) == 1 and not v.unk and not v.prim else None
            if o is None or o.kind != "arr" or v.shape and (len(v.shape) <= ax[0] or not over or v.shape[ax[0]] != over[0]):
                continue
            out[next(iter(v.refs))[1]] = o
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if "units" in self.hooks and len(self.exact_items(it, st, s.iter) or [0] * 99) > 12:
            sw = self.sweeps_of(s, it, st)
            if sw and not any(q in self.sweeps for q in sw):
                self.sweeps.update(sw)
                out = self.loop_for(s, it, st)
                for q in sw:
                    del self.sweeps[q]
                return out
        return self.loop_for(s, it, st)

    def loop_for(self, s, it, st):
        items = self.exact_items(it, st, s.iter)
        self.ctl.loops.append({"breaks": [], "conts": []})
        lp = self.ctl.loops[-1]
        if items is not None and len(items) <= 12:
            cur = st
            for x in items:
                if cur is None:
                    break
                self.assign(s.target, x, cur, s)
                lp["conts"] = []
                e = self.exec_block(s.body, cur)
                cur = join_states(([e] if e else []) + lp["conts"])
            out = cur
        else:
            head = st
            out = None
            own = {q for q in self.sweeps if q not in self.sweeping}
            self.sweeping |= own
            done = None
            if it.shape and sym_pos(it.shape[0]) and not it.unk and not it.prim and not it.consts:
                # at least one iteration certainly runs: peel the first one
                x = self.iter_elem(it, head, s.iter)
                if not x.is_bot():
                    self.assign(s.target, x, head, s)
                    e = self.exec_block(s.body, head)
                    head = join_states(([e] if e else []) + lp["conts"])
            for n in range(8 if head is not None else 0):
                b = head.copy()
                x = self.iter_elem(it, b, s.iter)
                if x.is_bot():
                    out = head
                    break
                self.assign(s.target, x, b, s)
                lp["conts"] = []
                for q in own:
                    # this iteration sees the part that no earlier one has replaced
                    b.heap[q] = self.sweeps[q]
                e = self.exec_block(s.body, b)
                nxt = join_states([head] + ([e] if e else []) + lp["conts"], w=n >= 2)
                if e and own:
                    done = {q: e.heap[q] for q in own}
                if head.leq(nxt):
                    out = nxt
                    break
                head = nxt
                out = head
            if out is not None and own and done:
                out = out.copy()
                out.heap.update(done)
            self.sweeping -= own
        self.ctl.loops.pop()
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out)
        return join_states(([out] if out else []) + lp["breaks"])

    def s_While(self, s, st):
        self.ctl.loops.append({"breaks": [], "conts": []})
        lp = self.ctl.loops[-1]
        head = st
        if self.truth(self.ev(s.test, head), head) == {True}:
            # the first iteration certainly runs: peel it
            e = self.exec_block(s.body, head)
            head = join_states(([e] if e else []) + lp["conts"])
            if head is None:
                self.ctl.loops.pop()
                return join_states(lp["breaks"])
        exits = []
        for n in range(8):
            b = head.copy()
            v = self.ev(s.test, b)
            t = self.truth(v, b)
            exits = []
            if False in t:
                x = self.refine(s.test, False, b.copy())
                if x is not None:
                    exits.append(x)
            if True not in t:
                break
            b = self.refine(s.test, True, b)
            if b is None:
                break
            lp["conts"] = []
            e = self.exec_block(s.body, b)
            nxt = join_states([head] + ([e] if e else []) + lp["conts"], w=n >= 2)
            if head.leq(nxt):
                break
            head = nxt
        self.ctl.loops.pop()
        return join_states(exits + lp["breaks"])

    def s_Break(self, s, st):
        self.ctl.loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st):
        self.ctl.loops[-1]["conts"].append(st)
        return None

    def s_Try(self, s, st):
        self.trys.append({"snaps": [st.copy()], "depth": len(self.stack)})
        body = self.exec_block(s.body, st)
        if body is not None and s.orelse:
            t = self.trys.pop()
            body = self.exec_block(s.orelse, body)
        else:
            t = self.trys.pop()
        outs = [body]
        for h in s.handlers:
            hs = join_states([x.copy() for x in t["snaps"]])
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                self.store_name(h.name, UNK, hs)
            outs.append(self.exec_block(h.body, hs))
        out = join_states(outs)
        if out is None:
            if s.finalbody and t["snaps"]:
                self.exec_block(s.finalbody, join_states([x.copy() for x in t["snaps"]]).copy())
            return None
        if s.finalbody:
            out = self.exec_block(s.finalbody, out)
        return out

    def s_With(self, s, st):
        return self.with_items(s.items, 0, s, st)

    def with_items(self, items, i, s, st):
        if i == len(items):
            return self.exec_block(s.body, st)
        it = items[i]
        e = it.context_expr
        if isinstance(e, ast.Call):
            fv = self.ev(e.func, st)
            cms = []
            for r in self.alts(fv.refs):
                f = None
                if r[0] == "func":
                    f = (r[1], r[2], [])
                elif r[0] == "bound":
                    f = (r[1], None, [ref(r[2])])
                if f and f[0].is_ctxmanager:
                    cms.append(f)
            if len(fv.refs) == 1 and cms:
                fi, parent, pre = cms[0]
                if fi.cls is not None and fi.cls.name == "Printer" and not self.hooks.get("printer"):
                    for a in e.args + [k.value for k in e.keywords]:
                        self.ev(a, st)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, NONE, st, s)
                    return self.with_items(items, i + 1, s, st)
                args, kwargs = self.eval_args(e, st)
                outer = (self.ctl, self.frame, self.ctx, self.stack)

                def hook(v, st2):
                    inner = (self.ctl, self.frame, self.ctx, self.stack)
                    self.ctl, self.frame, self.ctx, self.stack = outer
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, st2, s)
                        return self.with_items(items, i + 1, s, st2)
                    finally:
                        self.ctl, self.frame, self.ctx, self.stack = inner

                self.call_func(fi, parent, pre + args, kwargs, e, st, yield_hook=hook, gc=False)
                return st
        v = self.ev(e, st)
        bound = UNK if v.unk or v.prim else BOT
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is not None and o.kind == "inst":
                f = o.cls.lookup("__enter__")
                if f:
                    bound = bound.join(self.call_func(f, None, [ref(r)], {}, e, st))
                else:
                    bound = bound.join(UNK)
            else:
                bound = bound.join(UNK)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, bound, st, s)
        out = self.with_items(items, i + 1, s, st)
        if out is not None:
            for r in self.alts(v.refs):
                o = self.obj(out, r)
                if o is not None and o.kind == "inst":
                    f = o.cls.lookup("__exit__")
                    if f:
                        self.call_func(f, None, [ref(r), NONE, NONE, NONE], {}, e, out)
        return out

    # -------------------------------------------------------------------------------- refinement
    def refine(self, test, pos, st):
        """narrow st by test == pos (may return None if infeasible)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pos, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for v in test.values:
                    st = self.refine(v, pos, st)
                    if st is None:
                        return None
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                eq = isinstance(op, (ast.Is, ast.Eq)) == pos
                l, r = test.left, test.comparators[0]
                c = self.ev(r, st)
                sc = c.single_const()
                if sc is not NOCONST and (sc is None or isinstance(sc, (str, bool)) or isinstance(op, (ast.Eq, ast.NotEq))):
                    return self.narrow(l, lambda v: self.narrow_const(v, sc, eq, isinstance(op, (ast.Is, ast.IsNot)), st), st)
            elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                c = self.ev(test.comparators[0], st).single_const()
                if isinstance(c, (int, float)) and not isinstance(c, bool):
                    below = isinstance(op, (ast.Lt, ast.LtE)) == pos

                    def h(v):
                        if v.refs or v.unk or not v.prim or v.a is BOTA:
                            return v
                        a = v.a
                        a = Abs(a.unit, a.lo, min(a.hi, c), a.tags) if below else Abs(a.unit, max(a.lo, c), a.hi, a.tags)
                        return v.with_(a=a) if a.lo <= a.hi else v

                    if isinstance(test.left, (ast.Name, ast.Attribute)):
                        return self.narrow(test.left, h, st)
            elif isinstance(op, (ast.In, ast.NotIn)):
                c = self.ev(test.comparators[0], st)
                vals = self.const_items(c, st)
                if vals is not None:
                    inn = isinstance(op, ast.In) == pos

                    def f(v):
                        cs = frozenset(x for x in v.consts if (x in vals) == inn)
                        if inn and v.prim:
                            # an unknown string that is in the list
                            cs = cs | frozenset(x for x in vals if not isinstance(x, bool))
                            return V(consts=cs, a=LITA)
                        return v.with_(consts=cs)

                    return self.narrow(test.left, f, st)
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            kinds = self.type_kinds(test.args[1], st)
            if kinds is not None:
                return self.narrow(test.args[0], lambda v: self.narrow_type(v, kinds, pos, st), st)
            return st
        if isinstance(test, (ast.Name, ast.Attribute, ast.Subscript)):

            def g(v):
                cs = frozenset(c for c in v.consts if bool(c) == pos)
                return v.with_(consts=cs)

            return self.narrow(test, g, st)
        return st

    def narrow_const(self, v, c, eq, is_op, st):
        if eq:
            cs = frozenset(x for x in v.consts if x == c and type(x) == type(c) or (x == c and not isinstance(c, bool)))
            if c is None or isinstance(c, (str, bool)):
                if v.prim and c is not None:
                    cs = cs | {c}
                if v.unk:
                    cs = cs | {c}
                keep = E0
                if c is not None:
                    # an object could define equality, arrays compare elementwise
                    keep = frozenset(r for r in v.refs if not is_op and self.obj(st, r) is not None and self.obj(st, r).kind == "arr")
                return V(refs=keep, consts=cs, a=v.a if cs else BOTA, src=v.src)
            return v
        return v.with_(consts=frozenset(x for x in v.consts if not (x == c and (type(x) == type(c)))), src=v.src)

    def narrow_type(self, v, kinds, pos, st):
        def ck(c):
            if c is None:
                return "none"
            if isinstance(c, bool):
                return "bool"
            return type(c).__name__

        cs = frozenset(c for c in v.consts if (ck(c) in kinds or (ck(c) == "bool" and "int" in kinds)) == pos)
        rs = set()
        for r in self.alts(v.refs):
            k = self.ref_kinds(r, st)
            hit = bool(k & kinds)
            if k == {"?"}:
                rs.add(r)
            elif hit == pos:
                rs.add(r)
        prim = v.prim and (bool(kinds & {"int", "float", "str", "bool"}) if pos else not kinds >= {"int", "float", "str"})
        return V(frozenset(rs), cs, prim, v.unk, v.a, v.shape, v.dim, v.src)

    def ref_kinds(self, r, st):
        o = self.obj(st, r)
        if o is None:
            if r[0] == "class":
                return {"class"}
            if r[0] in ("func", "bound", "builtin"):
                return {"function"}
            if r[0] == "rng":
                return {"RandomState", "Generator"}
            return {"?"}
        if o.kind == "arr":
            return {"ndarray"}
        if o.kind == "inst":
            return {c.name for c in o.cls.mro()} | set(o.cls.ext_bases)
        return {o.kind}

    def type_kinds(self, node, st):
        v = self.ev(node, st)
        out = set()
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if r[0] == "builtin":
                out.add(r[1])
            elif r[0] == "class":
                out.add(r[1].name)
            elif r[0] == "ext":
                out.add(r[1].split(".")[-1])
            elif o is not None and o.kind in ("tuple", "list") and o.items is not None:
                for i in o.items:
                    for q in i.refs:
                        if q[0] == "builtin":
                            out.add(q[1])
                        elif q[0] == "class":
                            out.add(q[1].name)
                        elif q[0] == "ext":
                            out.add(q[1].split(".")[-1])
                        else:
                            return None
            else:
                return None
        if v.unk or not out or "object" in out:
            return None
        for nm, ks in (("Integral", ("int",)), ("Real", ("int", "float")), ("Complex", ("int", "float", "complex")), ("Number", ("int", "float", "complex")), ("NoneType", ("none",)), ("FunctionType", ("function",))):
            if nm in out:
                out.update(ks)
        return out

    def narrow(self, target, f, st):
        try:
            if isinstance(target, ast.Name):
                v = self.load_name(target.id, st, target)
                n = f(v)
                if n.is_bot():
                    return None
                if n != v:
                    fr = st.heap.get(self.frame[1])
                    if fr is not None and target.id in fr.vars:
                        self.store_name(target.id, n, st)
                return st
            if isinstance(target, ast.Attribute):
                b = self.ev(target.value, st)
                if len(b.refs) == 1 and not b.unk:
                    r = next(iter(b.refs))
                    o = self.obj(st, r)
                    if o is not None and o.kind == "inst" and target.attr in o.attrs:
                        v = o.attrs[target.attr]
                        n = f(v)
                        if n.is_bot():
                            return None
                        if n != v:
                            at = dict(o.attrs)
                            at[target.attr] = n
                            st.heap[r[1]] = Inst(o.cls, at, o.eps, o.may)
                return st
            if isinstance(target, ast.Subscript):
                b = self.ev(target.value, st)
                k = self.ev(target.slice, st).single_const()
                if len(b.refs) == 1 and not b.unk and k is not NOCONST:
                    r = next(iter(b.refs))
                    o = self.obj(st, r)
                    if o is not None and o.kind == "opts" and k in o.vals:
                        n = f(o.vals[k])
                        if n.is_bot():
                            return None
                        vs = dict(o.vals)
                        vs[k] = n
                        st.heap[r[1]] = Opts(o.decl, vs, o.ep)
                    elif o is not None and o.kind == "dict" and k in o.keys and o.rest.is_bot():
                        n = f(o.keys[k])
                        if n.is_bot():
                            return None
                        ks = dict(o.keys)
                        ks[k] = n
                        st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep, o.must)
            return st
        except Dead:
            return st

    def const_items(self, v, st):
        if len(v.refs) != 1 or v.unk:
            return None
        o = self.obj(st, next(iter(v.refs)))
        if o is None or o.kind not in ("list", "tuple", "set") or o.items is None:
            return None
        out = []
        for i in o.items:
            c = i.single_const()
            if c is NOCONST:
                return None
            out.append(c)
        return out

    # -------------------------------------------------------------------------------- iteration
    def exact_items(self, v, st, node):
        if len(v.refs) == 1 and not v.unk and not v.prim and not v.consts:
            o = self.obj(st, next(iter(v.refs)))
            if o is not None and o.kind in ("list", "tuple") and o.items is not None:
                return list(o.items)
            if o is not None and o.kind == "dict" and o.rest.is_bot():
                return [const(k) for k in o.keys]
            r0 = next(iter(v.refs))
            if r0[0] == "odecl":
                return [const(k) for k in sorted(self.obj(st, r0[1]).decl)]
        if v.all_consts() and len(v.consts) == 1:
            c = next(iter(v.consts))
            if isinstance(c, str) and len(c) <= 4:
                return [const(x) for x in c]
        return None

    def iter_elem(self, v, st, node):
        out = BOT
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is None:
                out = out.join(UNK)
            elif o.kind == "arr":
                sh = v.shape
                if sh is not None and len(sh) == 1:
                    e = prim(o.a)
                    if o.elem is not None:
                        e = e.join(o.elem)
                else:
                    e = V(refs=frozenset([r]), prim=sh is None, a=o.a if sh is None else BOTA, shape=sh[1:] if sh else None)
                    if o.elem is not None:
                        e = e.join(o.elem)
                out = out.join(e)
            elif o.kind in ("list", "tuple", "set"):
                out = out.join(o.all())
            elif o.kind == "dict":
                for k in o.keys:
                    out = out.join(const(k))
                if not o.rest.is_bot():
                    out = out.join(PRIM)
            elif o.kind == "opts":
                out = out.join(PRIM)
            else:
                out = out.join(UNK)
        for c in v.consts:
            if isinstance(c, str):
                out = out.join(PRIM)
        if v.prim or v.unk:
            out = out.join(UNK)
        return out

    # -------------------------------------------------------------------------------- truth
    def truth(self, v, st):
        t = set()
        for c in v.consts:
            t.add(bool(c))
        if v.prim or v.unk:
            a = v.a
            t |= {True, False}
        for r in self.alts(v.refs):
            o = self.obj(st, r)
            if o is None:
                t.add(True)
            elif o.kind in ("list", "tuple", "set"):
                if o.items is not None:
                    t.add(bool(o.items))
                else:
                    t |= {True, False}
            elif o.kind == "dict":
                if o.rest.is_bot() and not o.keys:
                    t.add(False)
                else:
                    t |= {True, False}
            elif o.kind == "arr":
                t |= {True, False}
            else:
                t.add(True)
        return t or {True, False}

    # -------------------------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return UNK
        return m(n, st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return V(consts=frozenset(["..."]))
        if isinstance(n.value, complex):
            return PRIM
        return const(n.value)

    def e_Name(self, n, st):
        return self.load_name(n.id, st, n)

    def e_Tuple(self, n, st):
        items = []
        exact = True
        elem = BOT
        for e in n.elts:
            if isinstance(e, ast.Starred):
                exact = False
                elem = elem.join(self.iter_elem(self.ev(e.value, st), st, e))
            else:
                items.append(self.ev(e, st))
        kind = "list" if isinstance(n, ast.List) else ("set" if isinstance(n, ast.Set) else "tuple")
        if not exact:
            for i in items:
                elem = elem.join(i)
            return self.mkseq(st, n, kind, None, elem)
        return self.mkseq(st, n, kind, items)

    e_List = e_Set = e_Tuple

    def e_Dict(self, n, st):
        keys, rest, must = {}, BOT, set()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                for r in self.alts(d.refs):
                    o = self.obj(st, r)
                    if o is not None and o.kind == "dict":
                        keys.update(o.keys)
                        must |= o.must
                        rest = rest.join(o.rest)
                    else:
                        rest = rest.join(UNK)
                continue
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            c = kv.single_const()
            if c is not NOCONST:
                keys[c] = vv
                must.add(c)
            else:
                rest = rest.join(vv)
        return self.mkdict(st, n, keys, rest, must=frozenset(must))

    def e_JoinedStr(self, n, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return PRIM

    def e_Lambda(self, n, st):
        return ref(("func", self.nested_fi(n), self.frame))

    def e_IfExp(self, n, st):
        tv = self.ev(n.test, st)
        t = self.truth(tv, st)
        mark = self.control_marks(tv, st, n) if len(t) == 2 else E0
        out = BOT
        sts = []
        if True in t:
            s1 = self.refine(n.test, True, st.copy())
            if s1 is not None:
                try:
                    out = out.join(self.ev(n.body, s1))
                    sts.append(s1)
                except Dead:
                    pass
        if False in t:
            s2 = self.refine(n.test, False, st.copy())
            if s2 is not None:
                try:
                    out = out.join(self.ev(n.orelse, s2))
                    sts.append(s2)
                except Dead:
                    pass
        if not sts:
            raise Dead()
        st.heap = join_states(sts).heap
        return self.marked(out, st, mark) if mark else out

    def e_BoolOp(self, n, st):
        out = BOT
        cur = st
        is_and = isinstance(n.op, ast.And)
        done = []
        for i, e in enumerate(n.values):
            v = self.ev(e, cur)
            t = self.truth(v, cur)
            last = i == len(n.values) - 1
            if last:
                out = out.join(v)
                done.append(cur)
                break
            stop = (False in t) if is_and else (True in t)
            go = (True in t) if is_and else (False in t)
            if stop:
                # value of a short-circuited operand
                cs = frozenset(c for c in v.consts if bool(c) != is_and)
                out = out.join(V(v.refs if not is_and else frozenset(r for r in v.refs if self.obj(cur, r) is not None and self.obj(cur, r).kind in ("list", "dict", "arr", "tuple")), cs, v.prim, v.unk, v.a, v.shape))
                done.append(cur.copy() if go else cur)
            if not go:
                break
            nx = self.refine(e, is_and, cur.copy() if stop else cur)
            if nx is None:
                break
            cur = nx
        j = join_states(done)
        if j is not None:
            st.heap = j.heap
        return out

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            t = self.truth(v, st)
            return V(consts=frozenset(not x for x in t), a=Abs(None, 0.0, 1.0, self.at(st, v).tags))
        return self.np.unop(type(n.op).__name__, v, st, n)

    def e_BinOp(self, n, st):
        l = self.ev(n.left, st)
        r = self.ev(n.right, st)
        return self.np.binop(type(n.op).__name__, l, r, st, n)

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        rs = [self.ev(c, st) for c in n.comparators]
        if len(rs) == 1:
            return self.compare(n.ops[0], l, rs[0], st, n)
        if self.has_kind(st, l, "arr") or any(self.has_kind(st, r, "arr") for r in rs):
            return self.arr(st, n, Abs(None, 0.0, 1.0, self.at(st, l).tags))
        return BOOL

    def compare(self, op, l, r, st, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = r.single_const()
            res = set()
            if c is not NOCONST:
                if c in l.consts and any(type(x) == type(c) for x in l.consts if x == c):
                    res.add(True)
                if any(x != c or type(x) != type(c) for x in l.consts) or l.refs or l.prim:
                    res.add(False)
                if l.unk:
                    res |= {True, False}
                if l.prim and isinstance(c, bool):
                    res |= {True, False}
            else:
                t = self.same_atom(l, r)
                res = {True, False} if t is None else {t}
            if isinstance(op, ast.IsNot):
                res = {not x for x in res}
            return V(consts=frozenset(res or {True, False}), a=Abs(None, 0.0, 1.0))
        if isinstance(op, (ast.In, ast.NotIn)):
            res = self.contains(l, r, st, n)
            if isinstance(op, ast.NotIn):
                res = {not x for x in res}
            return V(consts=frozenset(res), a=Abs(None, 0.0, 1.0))
        ua, ub = self.at(st, l).unit, self.at(st, r).unit
        if None not in (ua, ub) and UT not in (ua, ub) and not is_conf(ua) and not is_conf(ub) and ua[:2] != ub[:2]:
            self.event("unit_conflict", "%s: compares %s and %s" % (self.np.where(n), u_str(ua), u_str(ub)), n)
        if self.has_kind(st, l, "arr") or self.has_kind(st, r, "arr"):
            tags = self.at(st, l).tags | self.at(st, r).tags
            v = self.arr(st, n, Abs(None, 0.0, 1.0, tags), shape=self.np.bshape(l, r, st))
            if not (self.has_kind(st, l, "arr") and not l.prim and not l.consts) and not self.has_kind(st, r, "arr"):
                v = v.join(BOOL)
            return v
        if l.all_consts() and r.all_consts() and len(l.consts) * len(r.consts) <= 64:
            res = set()
            for a in l.consts:
                for b in r.consts:
                    try:
                        if isinstance(op, ast.Eq):
                            res.add(a == b)
                        elif isinstance(op, ast.NotEq):
                            res.add(a != b)
                        elif isinstance(op, ast.Lt):
                            res.add(a < b)
                        elif isinstance(op, ast.LtE):
                            res.add(a <= b)
                        elif isinstance(op, ast.Gt):
                            res.add(a > b)
                        elif isinstance(op, ast.GtE):
                            res.add(a >= b)
                    except TypeError:
                        res |= {True, False} if not isinstance(op, (ast.Eq, ast.NotEq)) else set()
            return V(consts=frozenset(res or {True, False}), a=Abs(None, 0.0, 1.0))
        # sizes compared as polynomials of the dimensions of the data
        if not l.refs and not r.refs and not l.unk and not r.unk:
            t = self.cmp_dims(op, l, r)
            if t is not None:
                return const(t)
        # classes / functions compared by identity
        if isinstance(op, (ast.Eq, ast.NotEq)) and l.refs and r.refs and not l.unk and not r.unk:
            t = self.same_atom(l, r)
            if t is not None:
                return const(t == isinstance(op, ast.Eq))
        aa, bb = l.a, r.a
        if not l.refs and not r.refs and not l.unk and not r.unk and aa is not BOTA and bb is not BOTA:
            tag = aa.tags | bb.tags
            if isinstance(op, ast.Lt) and aa.hi < bb.lo:
                return TRUE
            if isinstance(op, ast.Gt) and aa.lo > bb.hi:
                return TRUE
            return BOOL.with_(a=Abs(None, 0.0, 1.0, tag))
        return BOOL

    def same_atom(self, l, r):
        """classes, functions and types compared by identity: True, False or None (cannot be told)"""
        if not l.refs or not r.refs or l.unk or r.unk or l.prim or r.prim or any(x[0] == "o" for x in l.refs | r.refs):
            return None
        if not (l.refs & r.refs):
            return False
        if len(l.refs) == 1 and l.refs == r.refs and not l.consts and not r.consts and next(iter(l.refs))[0] in ("builtin", "class"):
            return True
        return None

    def cmp_dims(self, op, l, r):
        def dim(v):
            if v.dim is not None:
                return v.dim
            c = v.single_const()
            return sym_const(c) if isinstance(c, int) and not isinstance(c, bool) and not v.prim else None

        a, b = dim(l), dim(r)
        if a is None or b is None or (l.dim is None and r.dim is None):
            return None
        if any(x not in DATA_DIMS for k, _ in a + b for x in k):
            return None
        d = sym_add(a, b, -1)
        e = sym_add(b, a, -1)
        if "several" in self.hooks:
            # there are two or more inputs
            d, e = sym_shift(d, "nx"), sym_shift(e, "nx")
        if d == ():
            s = 0
        elif at_least_one(d):
            s = 1
        elif at_least_one(e):
            s = -1
        else:
            return None
        return {ast.Eq: s == 0, ast.NotEq: s != 0, ast.Lt: s < 0, ast.LtE: s <= 0, ast.Gt: s > 0, ast.GtE: s >= 0}.get(type(op))

    def plain_object(self, v, st):
        """only instances of classes without an equality of their own, or arrays and the like are excluded"""
        if not v.refs or v.consts or v.prim or v.unk:
            return False
        for r in v.refs:
            o = self.obj(st, r) if r[0] == "o" else None
            if o is None or not (o.kind in ("list", "dict", "set") or (o.kind == "inst" and o.cls.lookup("__eq__") is None)):
                return False
        return True

    def contains(self, l, r, st, n):
        res = set()
        if self.plain_object(l, st) and r.all_consts() and all(isinstance(b, str) for b in r.consts):
            self.raised(st)  # TypeError: only a text can be in a text
            raise Dead()
        for q in r.refs:
            o = self.obj(st, q)
            if o is None:
                return {True, False}
            if o.kind == "dict":
                if not l.all_consts():
                    return {True, False}
                for c in l.consts:
                    if c in o.must:
                        res |= {True}
                    elif c in o.keys or not o.rest.is_bot() or self.meta[q[1]]["origin"] is not None:
                        res |= {True, False}
                    else:
                        res |= {False}
            elif o.kind in ("list", "tuple", "set"):
                if o.items is not None and self.plain_object(l, st) and all(i.all_consts() for i in o.items):
                    res.add(False)  # an object that defines no equality is in no list of constants
                    continue
                if o.items is None or not l.all_consts():
                    return {True, False}
                cs = [i.single_const() for i in o.items]
                for c in l.consts:
                    if NOCONST in cs:
                        return {True, False}
                    res.add(c in cs)
            elif o.kind == "opts":
                if not l.all_consts():
                    return {True, False}
                for c in l.consts:
                    res.add(c in o.decl)
            elif o.kind == "inst" and o.cls.lookup("__contains__") is not None:
                res |= self.truth(self.call_func(o.cls.lookup("__contains__"), None, [V(refs=frozenset([q])), l], {}, n, st), st)
            else:
                return {True, False}
        if r.all_consts() and l.all_consts():
            for a in l.consts:
                for b in r.consts:
                    if isinstance(a, str) and isinstance(b, str):
                        res.add(a in b)
        elif r.prim or r.unk or r.consts:
            return {True, False}
        return res or {True, False}

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        self.do_yield(n, st)
        return UNK

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    # comprehension: evaluated in the current frame (targets leak harmlessly)
    def comp(self, n, st, elt):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.ev(g.iter, st)
            items = self.exact_items(it, st, g.iter)
            if items is not None and len(items) <= 40:
                out = []
                ctx0 = self.ctx
                for j, x in enumerate(items):
                    self.ctx = self._ctx(ctx0, ("comp", id(n), j))
                    self.assign(g.target, x, st, n)
                    out.append(elt(st))
                self.ctx = ctx0
                return out, None
            if it.is_bot():
                return [], None
        acc = [BOT]
        length = [None]

        def rec(i, s):
            if i == len(n.generators):
                acc[0] = acc[0].join(elt(s))
                return
            g = n.generators[i]
            it = self.ev(g.iter, s)
            if len(n.generators) == 1 and not g.ifs and it.shape:
                length[0] = it.shape[0]
            self.assign(g.target, self.iter_elem(it, s, g.iter), s, n)
            for c in g.ifs:
                self.ev(c, s)
                q = self.refine(c, True, s)
                if q is None:
                    return
            rec(i + 1, s)

        for _ in range(2):
            s = st.copy()
            try:
                rec(0, s)
            except Dead:
                pass
            st.heap = st.join(s).heap
        self._complen = (n, length[0])
        return None, acc[0]

    def e_ListComp(self, n, st):
        items, elem = self.comp(n, st, lambda s: self.ev(n.elt, s))
        if items is not None:
            return self.mkseq(st, n, "list", items)
        out = self.mkseq(st, n, "list", None, elem)
        if self._complen[0] is n and self._complen[1] is not None:
            inner = self.np.shape_of(elem, st) if not self.has_kind(st, elem, "list", "tuple", "dict", "set", "inst") else None
            if inner is not None:
                out = out.with_(shape=(self._complen[1],) + tuple(inner))
        return out

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        items, elem = self.comp(n, st, lambda s: self.ev(n.elt, s))
        return self.mkseq(st, n, "set", None, elem if items is None else join_all(items))

    def e_DictComp(self, n, st):
        def elt(s):
            k = self.ev(n.key, s)
            v = self.ev(n.value, s)
            return self.mkseq(s, n, "tuple", [k, v])

        items, elem = self.comp(n, st, elt)
        keys, rest, must = {}, BOT, frozenset()
        for it in items if items is not None else [elem]:
            for r in self.alts(it.refs):
                o = self.obj(st, r)
                if o is None or o.items is None:
                    continue
                k, v = o.items
                if k.all_consts() and len(k.consts) <= 8 and items is not None:
                    if len(k.consts) == 1:
                        must |= k.consts
                    for c in k.consts:
                        keys[c] = keys[c].join(v) if c in keys else v
                elif k.all_consts():
                    for c in k.consts:
                        keys[c] = v
                else:
                    rest = rest.join(v)
        return self.mkdict(st, n, keys, rest, must=must)

    # -------------------------------------------------------------------------------- attributes
    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        if b.alts and n.attr in ("ndim", "shape") and isinstance(n.value, ast.Name):
            # the code looks at the form of the array itself
            self.store_name(n.value.id, V(b.refs, b.consts, b.prim, b.unk, b.a, b.shape, b.dim, b.src), st)
        return self.get_attr(b, n.attr, st, n)

    def get_attr(self, b, attr, st, n):
        out = BOT
        for r in self.alts(b.refs):
            out = out.join(self.get_attr_ref(r, attr, st, n, b))
        if b.unk:
            out = out.join(V(refs=frozenset([("umeth", attr)]), unk=True, a=TOPA))
        if b.prim or any(c is not None for c in b.consts):
            out = out.join(self.np.prim_attr(b, attr, st, n))
        if out.is_bot():
            if b.only_none():
                self.raised(st)
                raise Dead()
            return UNK
        return out

    def get_attr_ref(self, r, attr, st, n, b):
        k = r[0]
        if k == "ext":
            return self.np.ext_attr(r[1] + "." + attr)
        if k == "mod":
            m = r[1]
            rr = self.ix.resolve_name(m, attr)
            if rr is None and m.name + "." + attr in self.ix.modules:
                rr = self.ix.modules[m.name + "." + attr]
            if rr is not None and not isinstance(rr, tuple):
                return self.static_ref(rr)
            return self.global_name(m, attr, st, n)
        if k == "class":
            c = r[1]
            f = c.lookup(attr)
            if f is not None:
                if f.is_classmethod:
                    return ref(("bound", f, r))
                return ref(("func", f, None))
            if attr == "__name__":
                return const(c.name)
            return self.class_attr(c, attr, st, n)
        if k == "super":
            mro = r[2].mro()
            i = mro.index(r[1]) if r[1] in mro else -1
            for c in mro[i + 1 :]:
                if attr in c.methods:
                    return ref(("bound", c.methods[attr], r[3]))
            return UNK if attr != "__init__" else ref(("builtin", "object_init"))
        if k == "o":
            o = self.obj(st, r)
            if o is None:
                return UNK
            if o.kind == "inst":
                return self.inst_attr(r, o, attr, st, n)
            if o.kind == "opts":
                if attr in ("_declared_entries", "_dict"):
                    return ref(("odecl", r, attr))
                return ref(("ometh", r, attr))
            if o.kind == "arr":
                return self.np.arr_attr(r, o, attr, st, n, b)
            if o.kind in BUILTIN_KINDS and not hasattr(BUILTIN_KINDS[o.kind], attr):
                self.raised(st)  # AttributeError
                return BOT if len(b.refs) > 1 or b.unk or b.prim else self.die()
            return ref(("cmeth", r, attr))
        if k == "odecl":
            return ref(("odmeth", r, attr))
        if k == "func" or k == "bound":
            if attr == "__name__":
                return const(r[1].name)
        if k == "umeth":
            return ref(("umeth", attr))
        return UNK

    def class_attr(self, c, attr, st, n):
        for k in c.mro():
            if attr in k.attrs:
                save = (self.ctl, self.frame, self.ctx, self.phase)
                fi = FuncInfo.__new__(FuncInfo)
                fi.node, fi.module, fi.cls, fi.outer, fi.name, fi.qual, fi.decorators = k.node, k.module, k, None, "<class>", k.qual + ".<class>", []
                fr = self.module_frame(k.module)
                if fr[1] not in st.heap:
                    st.heap[fr[1]] = self.st0.heap[fr[1]]
                self.ctl, self.frame, self.phase = Ctl(fi), fr, "import"
                self.ctx = self._ctx(0, ("classbody", k.qual))
                try:
                    # evaluate once: the object is shared by all instances
                    key = ("classattr", k.qual, attr)
                    v = self._classattrs.get(key) if hasattr(self, "_classattrs") else None
                    if v is None:
                        v = self.ev(k.attrs[attr], st)
                        if not hasattr(self, "_classattrs"):
                            self._classattrs = {}
                        self._classattrs[key] = v
                        for r in self.alts(v.refs):
                            if r[0] == "o":
                                self.meta[r[1]]["origin"] = ("class", k.qual, attr)
                                self.st0.heap[r[1]] = st.heap[r[1]]
                    for r in self.alts(v.refs):
                        if r[0] == "o" and r[1] not in st.heap:
                            st.heap[r[1]] = self.st0.heap[r[1]]
                    return v
                finally:
                    self.ctl, self.frame, self.ctx, self.phase = save
        return UNK

    def inst_attr(self, r, o, attr, st, n):
        if attr in o.attrs:
            if attr in o.may:
                self.event("attr_maybe", (o.cls.name, attr), n)
            if attr not in ("options", "printer", "supports"):
                self.event("attr_read", (r[1], attr, o.cls.name, o.eps.get(attr, E0)), n)
            return o.attrs[attr].at_src(("a", r[1], attr, o.eps.get(attr, E0)))
        if attr == "__class__":
            return ref(("class", o.cls))
        if attr == "__dict__":
            return UNK
        f = o.cls.lookup(attr)
        if f is not None:
            if f.is_property:
                return self.call_func(f, None, [ref(r)], {}, n, st)
            if f.is_static:
                return ref(("func", f, None))
            if f.is_classmethod:
                return ref(("bound", f, ("class", o.cls)))
            return ref(("bound", f, r))
        if o.cls.lookup_attr(attr):
            return self.class_attr(o.cls, attr, st, n)
        if not o.cls.ext_bases or set(o.cls.ext_bases) <= {"object"}:
            self.event("attr_missing", (o.cls.name, attr), n)
        return UNK

    def e_Slice(self, n, st):
        for c in (n.lower, n.upper, n.step):
            if c is not None:
                self.ev(c, st)
        return V(consts=frozenset(["<slice>"]))

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev(n.slice, st)
        return self.get_item(b, k, st, n)

    def get_item(self, b, k, st, n):
        out = BOT
        chosen = None
        for r in self.alts(b.refs):
            o = self.obj(st, r)
            if o is not None and o.kind in ("list", "tuple", "dict") and chosen is None and self.ctl is not None:
                # which object of a container is used depends on another point: so does what follows
                chosen = frozenset(t for t in self.at(st, k).tags if isinstance(t, tuple) and t[0] == "mix")
                self.ctl.marks = self.ctl.marks | chosen
            if o is None:
                if r[0] == "odecl":
                    oo = self.obj(st, r[1])
                    self.event("opts_internal", (r[2], "getitem"), n)
                    if r[2] == "_dict" and k.all_consts():
                        for c in k.consts:
                            out = out.join(oo.vals.get(c, UNK))
                    else:
                        out = out.join(ref(("odata", k.single_const())))
                elif r[0] == "ext":
                    out = out.join(self.np.ext_item(r[1], k, st, n))
                else:
                    out = out.join(UNK)
            elif o.kind == "arr" and o.elem is not None and k.all_consts() and all(isinstance(c, str) for c in k.consts):
                pass  # an array of objects has no item with a name: it is one of the objects that is meant
            elif o.kind == "arr":
                out = out.join(self.np.index(V(refs=frozenset([r]), shape=b.shape), r, o, k, st, n))
            elif o.kind in ("list", "tuple", "set"):
                out = out.join(self.seq_item(r, o, k, st, n))
            elif o.kind == "dict":
                out = out.join(self.dict_item(r, o, k, st, n))
            elif o.kind == "opts":
                out = out.join(self.opts_get(r, o, k, st, n))
            elif o.kind == "inst":
                f = o.cls.lookup("__getitem__")
                out = out.join(self.call_func(f, None, [ref(r), k], {}, n, st) if f else UNK)
            else:
                out = out.join(UNK)
        if b.prim or any(isinstance(c, (str, int, float)) for c in b.consts):
            out = out.join(prim(b.a))
        if b.unk:
            out = out.join(UNK)
        if out.is_bot():
            if b.only_none():
                self.raised(st)
                raise Dead()
            if b.refs:
                # definite lookup failure
                self.raised(st)
                raise Dead()
            return UNK
        return out

    def seq_item(self, r, o, k, st, n):
        if self.is_slice(n, k):
            lo = up = None
            sl = n.slice if isinstance(n, ast.Subscript) else None
            if o.items is not None and isinstance(sl, ast.Slice) and sl.step is None:
                lo = self.ev(sl.lower, st).single_const() if sl.lower else None
                up = self.ev(sl.upper, st).single_const() if sl.upper else None
                if lo is not NOCONST and up is not NOCONST:
                    return self.mkseq(st, n, o.kind, o.items[lo:up])
            return self.mkseq(st, n, o.kind, None, o.all())
        if k.all_consts() and k.consts and all(isinstance(c, str) for c in k.consts):
            self.raised(st)  # TypeError
            return BOT
        if o.items is not None and k.all_consts():
            out = BOT
            for c in k.consts:
                if isinstance(c, int) and -len(o.items) <= c < len(o.items):
                    out = out.join(o.items[c])
            return out
        return o.all()

    def is_slice(self, n, k):
        return "<slice>" in k.consts

    def dict_item(self, r, o, k, st, n):
        out = BOT
        missing = False
        if k.all_consts():
            for c in k.consts:
                if c in o.keys:
                    out = out.join(o.keys[c])
                else:
                    missing = True
                    if not o.rest.is_bot():
                        out = out.join(o.rest)
        elif k.prim and not k.unk and not k.refs and not k.consts and (k.a.lo > -INF or k.a.hi < INF):
            # a number between bounds
            out = o.rest
            for c, w in o.keys.items():
                if isinstance(c, (int, float)) and k.a.lo <= c <= k.a.hi:
                    out = out.join(w)
            missing = True
        else:
            out = o.all()
            missing = True
        if missing and o.factory is not None:
            if k.all_consts():
                self.mutated(st, r, n, "entry made by reading it")
                o = self.obj(st, r)
            v = self.call(o.factory, [], {}, n, st)
            o = self.obj(st, r)
            if k.all_consts():
                ks = dict(o.keys)
                for c in k.consts:
                    if c not in ks:
                        ks[c] = v
                st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep, o.must | k.consts if len(k.consts) == 1 else o.must)
            else:
                st.heap[r[1]] = Dct(o.keys, o.rest.join(v), o.factory, o.ep, o.must)
            out = out.join(v)
        elif missing and k.all_consts() and o.rest.is_bot() and self.meta[r[1]]["origin"] is None:
            self.event("key_missing", (tuple(sorted(repr(c) for c in k.consts if c not in o.keys)), tuple(sorted(map(repr, o.keys)))), n)
        if out.is_bot() and self.meta[r[1]]["origin"] is not None:
            return UNK
        return out

    # -------------------------------------------------------------------------------- options
    def opts_get(self, r, o, k, st, n):
        out = BOT
        if not k.all_consts():
            return UNK
        for c in k.consts:
            self.event("opt_read", (r[1], c, c in o.decl, o.ep.get(c, E0)), n)
            if c in o.vals:
                out = out.join(o.vals[c])
        if out.is_bot():
            return UNK
        c = k.single_const()
        if c is not NOCONST:
            return out.at_src(("p", r[1], c, o.ep.get(c, E0)))
        return out

    def opts_set(self, r, o, k, v, st, node):
        if not k.all_consts():
            self.event("opt_write", (r[1], "?", None, self.meta[r[1]]["phase"]), node)
            return
        vs = dict(o.vals)
        ep = dict(o.ep)
        for c in k.consts:
            self.event("opt_write", (r[1], c, c in o.decl, self.meta[r[1]]["phase"]), node)
            e = frozenset([self.phase])
            sl = v.slot("p", r[1], c)
            if sl is not None:
                self.event("restore", (r[1], "option", "options", c, sl[3] == o.ep.get(c)), node)
                e = sl[3]
            w = v.at_src(("p", r[1], c), True)
            vs[c] = w if len(k.consts) == 1 else (vs[c].join(w) if c in vs else w)
            ep[c] = e if len(k.consts) == 1 else ep.get(c, E0) | e
        st.heap[r[1]] = Opts(o.decl, vs, ep)

    def opts_method(self, r, name, args, kwargs, st, n):
        o = self.obj(st, r)
        if name == "declare":
            nm = (args[0] if args else kwargs.get("name", UNK)).single_const()
            pos = ["name", "default", "values", "types", "desc"]
            kw = dict(zip(pos, args))
            kw.update(kwargs)
            d = dict(o.decl)
            vs = dict(o.vals)
            ep = dict(o.ep)
            d[nm] = (id(n),)
            self.event("opt_declare", (r[1], nm), n)
            vv = kw.get("values")
            allowed = None
            if vv is not None and not vv.only_none():
                allowed = set(self.iter_elem(vv, st, n).consts)
            self.decls[nm] = {"default": kw.get("default", NONE), "values": allowed, "types": self.type_names(kw.get("types"), st, n), "owner": self.ctl.fi.cls.name if self.ctl.fi.cls else self.ctl.fi.name, "node": n, "fi": self.ctl.fi}
            default = kw.get("default", NONE)
            key = nm
            owner = self.ctl.fi.cls.name if self.ctl.fi.cls else self.ctl.fi.name
            cfg = self.config.get(owner + "." + nm, self.config.get(nm, self.config.get(owner + ".*", self.config.get("*", ANY))))
            if cfg is DEFAULT and default.only_none() and "default" not in kw:
                cfg = ANY
            if cfg is ANY:
                val = self.any_option_value(nm, default if "default" in kw or not ("values" in kw or "types" in kw) else BOT, kw, st, n)
            elif cfg is DEFAULT:
                val = default
            else:
                val = cfg if isinstance(cfg, V) else const(cfg)
            vs[nm] = val
            ep[nm] = frozenset(["declare"])
            st.heap[r[1]] = Opts(d, vs, ep)
            return NONE
        if name == "update":
            dv = args[0] if args else UNK
            for q in dv.refs:
                od = self.obj(st, q)
                if od is not None and od.kind == "dict":
                    o = self.obj(st, r)
                    for kk, vv in od.keys.items():
                        self.opts_set(r, self.obj(st, r), const(kk), vv, st, n)
                    if not od.rest.is_bot():
                        self.event("opt_write", (r[1], "*", None, self.meta[r[1]]["phase"]), n)
            return NONE
        if name == "is_declared":
            k = args[0]
            if k.all_consts():
                return V(consts=frozenset(c in o.decl for c in k.consts))
            return BOOL
        if name == "clone":
            return V(refs=frozenset([self.new(st, Opts(o.decl, o.vals, o.ep), n, "clone")]))
        if name == "_dict":
            return UNK
        self.event("opts_unknown_method", name, n)
        return UNK

    def type_names(self, v, st, n):
        """the types a declaration lists, by their references; None: no restriction"""
        if v is None or v.only_none():
            return None
        out = set(r for r in v.refs if r[0] != "o")
        for r in v.refs:
            if r[0] == "o":
                out |= set(self.iter_elem(V(refs=frozenset([r])), st, n).refs)
        return frozenset(out)

    def any_option_value(self, nm, default, kw, st, n):
        """every value the declaration admits"""
        v = default
        vals = kw.get("values")
        vals_all = ()
        if vals is not None and not vals.only_none():
            w = self.iter_elem(vals, st, n)
            vals_all = w.consts if w.consts else vals.consts
            v = v.join(w)
            for c in vals.consts:
                if isinstance(c, str):
                    v = v.join(const(c))
        ty = kw.get("types")
        names = []
        if ty is not None and not ty.only_none():

            def collect(tv):
                for r in self.alts(tv.refs):
                    q = self.obj(st, r)
                    if r[0] == "builtin":
                        names.append(r[1])
                    elif r[0] == "ext":
                        names.append(r[1].split(".")[-1])
                    elif r[0] == "class":
                        names.append(r[1])
                    elif q is not None and q.kind in ("tuple", "list"):
                        collect(q.all())
                    else:
                        names.append("?")

            collect(ty)
        fi = self.ctl.fi
        tag = ("option", fi.cls.name if fi.cls else fi.name, nm)
        unit = self.hooks.get("option_unit")
        for t in names:
            if t in ("int", "float"):
                c = default.single_const()
                if isinstance(c, bool) or not isinstance(c, (int, float)):
                    v = v.join(PRIM)
                else:
                    v = v.with_(consts=frozenset(x for x in v.consts if not isinstance(x, (int, float)) or isinstance(x, bool)), prim=True, a=v.a.join(LITA))
            elif t == "bool":
                v = v.join(BOOL)
            elif t == "str":
                # a list of strings together with the type str documents the list
                if not (vals_all and all(isinstance(c, str) for c in vals_all)):
                    v = v.join(PRIM)
            elif t == "NoneType":
                v = v.join(NONE)
            elif t == "ndarray":
                a = unit(nm, self) if unit else None
                v = v.join(self.arr(st, n, a or TOPA, extra="optarr", origin=tag))
            elif t in ("list", "tuple"):
                a = unit(nm, self) if unit else None
                v = v.join(self.mkseq(st, n, t, None, V(prim=True, unk=a is None, a=a or TOPA), extra="opt" + t, origin=tag))
            elif t == "dict":
                v = v.join(self.mkdict(st, n, {}, UNK, extra="optdict", origin=tag))
            elif t == "function" or t == "FunctionType":
                v = v.join(ref(("user", nm)))
            elif isinstance(t, ClassInfo):
                v = v.join(self.option_instance(t, st, n, nm))
            else:
                v = v.join(UNK)
        return v

    def option_instance(self, cls, st, n, nm):
        h = self.hooks.get("option_instance")
        if h:
            return h(cls, st, n, nm)
        return UNK

    # -------------------------------------------------------------------------------- calls
    def eval_args(self, n, st):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.exact_items(v, st, a)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(("*", v))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                got = False
                for r in self.alts(v.refs):
                    o = self.obj(st, r)
                    if o is not None and o.kind == "dict":
                        for kk, vv in o.keys.items():
                            kwargs[kk] = kwargs[kk].join(vv) if kk in kwargs and got else vv
                        if not o.rest.is_bot():
                            kwargs["**"] = kwargs.get("**", BOT).join(o.rest)
                        got = True
                if not got:
                    kwargs["**"] = UNK
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return self.do_super(n, st)
        f = self.ev(n.func, st)
        args, kwargs = self.eval_args(n, st)
        return self.call(f, args, kwargs, n, st)

    def do_super(self, n, st):
        fi = self.ctl.fi
        while fi is not None and fi.cls is None:
            fi = fi.outer
        if fi is None:
            return UNK
        cls = fi.cls
        if n.args:
            cv = self.ev(n.args[0], st)
            sv = self.ev(n.args[1], st) if len(n.args) > 1 else UNK
            cs = [r[1] for r in cv.refs if r[0] == "class"]
            if cs:
                cls = cs[0]
        else:
            sv = self.load_name(fi.params()[0], st, n)
        out = BOT
        for r in self.alts(sv.refs):
            o = self.obj(st, r)
            if o is not None and o.kind == "inst":
                out = out.join(ref(("super", cls, o.cls, r)))
        return out if not out.is_bot() else UNK

    def call(self, f, args, kwargs, n, st):
        out = BOT
        refs = sorted(f.refs, key=lambda r: (r[0], str(r[1]) if not isinstance(r[1], tuple) else str(r[1])))
        base = None
        if len(refs) > 1:
            base = st.copy()
            sts = []
            for r in self.alts(refs):
                s1 = base.copy()
                try:
                    out = out.join(self.call_ref(r, args, kwargs, n, s1, f))
                    sts.append(s1)
                except Dead:
                    pass
            if not sts:
                raise Dead()
            st.heap = join_states(sts).heap
        else:
            for r in self.alts(refs):
                out = out.join(self.call_ref(r, args, kwargs, n, st, f))
        if f.unk and not refs:
            out = out.join(self.call_unknown(args, kwargs, n, st))
        if not refs and not f.unk:
            if f.is_bot() or f.only_none():
                self.raised(st)
                raise Dead()
            return UNK
        return out

    def flat(self, args, kwargs):
        vs = [a[1] if isinstance(a, tuple) else a for a in args]
        return vs + list(kwargs.values())

    def call_unknown(self, args, kwargs, n, st):
        tags = E0
        for v in self.flat(args, kwargs):
            tags = tags | self.at(st, v).tags
        return V(unk=True, a=Abs(UT, tags=tags))

    def call_ref(self, r, args, kwargs, n, st, f):
        k = r[0]
        if k == "func":
            return self.call_func(r[1], r[2], args, kwargs, n, st)
        if k == "bound":
            recv = ref(r[2])
            return self.call_func(r[1], None, [recv] + list(args), kwargs, n, st)
        if k == "class":
            return self.instantiate(r[1], args, kwargs, n, st)
        if k == "builtin":
            return self.np.builtin(r[1], args, kwargs, n, st)
        if k == "ext":
            return self.np.ext_call(r[1], args, kwargs, n, st)
        if k == "ameth":
            return self.np.arr_method(r[1], r[2], args, kwargs, n, st, r[3] if len(r) > 3 else None)
        if k == "cmeth":
            return self.np.container_method(r[1], r[2], args, kwargs, n, st)
        if k == "pmeth":
            return self.np.prim_method(r[1], args, kwargs, n, st)
        if k == "umeth":
            return self.np.unknown_method(r[1], args, kwargs, n, st, f)
        if k == "odmeth":
            o = self.obj(st, r[1][1])
            self.event("opts_internal", (r[1][2], r[2]), n)
            if r[2] in ("items", "keys", "values"):
                ks = sorted(o.decl)
                its = []
                for j, x in enumerate(ks):
                    dv = ref(("odata", x)) if r[1][2] == "_declared_entries" else o.vals.get(x, UNK)
                    its.append(const(x) if r[2] == "keys" else (dv if r[2] == "values" else self.mkseq(st, n, "tuple", [const(x), dv], extra=("odi", j))))
                return self.mkseq(st, n, "list", its)
            return UNK
        if k == "ometh":
            return self.opts_method(r[1], r[2], args, kwargs, st, n)
        if k == "hook":
            return self.hooks["h"][r[1]](args, kwargs, n, st)
        if k == "user":
            return self.user_call(r[1], args, kwargs, n, st)
        if k == "o":
            o = self.obj(st, r)
            if o is not None and o.kind == "inst":
                g = o.cls.lookup("__call__")
                if g:
                    return self.call_func(g, None, [ref(r)] + list(args), kwargs, n, st)
            return self.call_unknown(args, kwargs, n, st)
        return self.call_unknown(args, kwargs, n, st)

    def user_call(self, name, args, kwargs, n, st):
        if "units" in self.hooks:
            for a in args[:1]:
                if not isinstance(a, tuple):
                    self.event("user_point", (name, self.at(st, a)), n)
        h = self.hooks.get("user_call")
        if h:
            return h(name, args, kwargs, n, st)
        self.event("user_call", (name,), n)
        return self.arr(st, n, TOPA, extra="user")

    def instantiate(self, cls, args, kwargs, n, st):
        if cls.name == "OptionsDictionary" and not self.real_options:
            return V(refs=frozenset([self.new(st, Opts(), n, "opts")]))
        h = self.hooks.get("instantiate")
        if h:
            v = h(cls, args, kwargs, n, st)
            if v is not None:
                return v
        if self.is_exception_class(cls):
            return UNK
        r = self.new(st, Inst(cls), n, ("inst", cls.qual))
        init = cls.lookup("__init__")
        if init is not None:
            self.call_func(init, None, [ref(r)] + list(args), kwargs, n, st)
        self.event("instantiate", (cls.name, r[1]), n)
        return ref(r)

    def is_exception_class(self, cls):
        return any(b.endswith("Error") or b == "Exception" for c in cls.mro() for b in c.ext_bases)

    def call_func(self, fi, parent, args, kwargs, n, st, yield_hook=None, gc=True):
        depth = sum(1 for f, _ in self.stack if f.node is fi.node)
        if depth >= MAXREC or len(self.stack) > MAXDEPTH:
            self.event("recursion", fi.qual, n)
            return self.call_unknown(args, kwargs, n, st)
        if fi.cls is not None and fi.cls.name == "Printer" and fi.name != "__init__" and not self.hooks.get("printer"):
            return PRIM
        if fi.is_abstract and self.is_stub(fi):
            self.event("abstract_call", fi.qual, n)
            return UNK
        h = self.hooks.get("call_func")
        if h:
            v = h(fi, args, kwargs, n, st)
            if v is not None:
                return v
        self.ncalls += 1
        self.funcs_seen.add(fi.qual)
        if self.budget is not None and self.ncalls > self.budget:
            raise AnalysisBroken("abstract interpretation budget exceeded (%d calls)" % self.ncalls)
        save = (self.ctl, self.frame, self.ctx)
        ctx = self._ctx(self.ctx, (id(n), id(fi.node)))
        alt, self.alt = self.alt, None
        heap0 = dict(st.heap)
        vars_ = self.bind(fi, parent, args, kwargs, n, st)
        self.ctx = ctx
        self.ctl = Ctl(fi)
        self.ctl.yield_hook = yield_hook
        fr = self.new(st, Frame(vars_, parent, fi), fi.node, "frame")
        self.frame = fr
        self.stack = self.stack + [(fi, n)]
        try:
            if isinstance(fi.node, ast.Lambda):
                try:
                    v = self.ev(fi.node.body, st)
                    rets = [(v, st)]
                except Dead:
                    rets = []
            else:
                work = St(st.heap)
                end = self.exec_block(fi.node.body, work)
                rets = self.ctl.returns
                if end is not None:
                    rets = rets + [(NONE, end)]
                    if any(not x.only_none() for x, _ in self.ctl.returns):
                        self.event("implicit_none", fi.qual, fi.node)
        finally:
            self.ctl, self.frame, self.ctx = save
            self.alt = alt
            self.stack = self.stack[:-1]
        if not rets:
            raise Dead()
        out = BOT
        for v, _ in rets:
            out = out.join(v)
        js = join_states([s for _, s in rets])
        st.heap = js.heap
        hr = self.hooks.get("returned")
        if hr:
            hr(fi, out, st, n)
        if gc:
            self.gc(st, out, heap0)
        return out

    def is_stub(self, fi):
        body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return all(isinstance(s, ast.Pass) for s in body) or (len(body) == 1 and isinstance(body[0], ast.Raise))

    def gc(self, st, out, heap0):
        """drop objects allocated during a finished call that neither its result nor older objects can reach"""
        live = set()
        work = []

        def push(v):
            for r in self.alts(v.refs):
                pushr(r)

        def pushr(r):
            if r is None:
                return
            k = r[0]
            if k == "o":
                if r[1] not in live and r[1] not in heap0:
                    live.add(r[1])
                    work.append(r[1])
            elif k in ("bound", "func"):
                if r[2] is not None:
                    pushr(r[2])
            elif k == "super":
                pushr(r[3])
            elif k in ("ameth", "cmeth", "ometh"):
                pushr(r[1])

        def scan(o):
            if o.kind == "frame":
                for v in o.vars.values():
                    push(v)
                pushr(o.parent)
            elif o.kind == "inst":
                for v in o.attrs.values():
                    push(v)
            elif o.kind == "dict":
                for v in o.keys.values():
                    push(v)
                push(o.rest)
                if o.factory is not None:
                    push(o.factory)
            elif o.kind == "arr":
                if o.elem is not None:
                    push(o.elem)
            elif o.kind == "opts":
                for v in o.vals.values():
                    push(v)
            else:
                push(o.elem)
                if o.items:
                    for v in o.items:
                        push(v)

        push(out)
        h = st.heap
        for k, o in h.items():
            p = heap0.get(k)
            if p is not None and p is not o:
                scan(o)
        while work:
            o = h.get(work.pop())
            if o is not None:
                scan(o)
        z = self.st0.heap
        st.heap = {k: v for k, v in h.items() if k in heap0 or k in live or k in z}

    def bind(self, fi, parent, args, kwargs, n, st):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        star = None
        pos = []
        for x in args:
            if isinstance(x, tuple):
                star = self.iter_elem(x[1], st, n)
                if star.is_bot():
                    star = None
            else:
                pos.append(x)
        for nm, v in zip(names, pos):
            vars_[nm] = v
        extra = pos[len(names) :]
        rest = kwargs.get("**")
        kw = {}
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vars_[k] = v
            else:
                kw[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults) :], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        for nm in names:
            if nm not in vars_:
                if star is not None:
                    vars_[nm] = star
                elif nm in defaults:
                    dv = self.default_value(fi, parent, nm, defaults[nm], st)
                    vars_[nm] = dv.join(rest) if rest is not None else dv
                elif rest is not None:
                    vars_[nm] = rest
                else:
                    self.event("missing_arg", (fi.qual, nm), n)
                    self.raised(st)
                    raise Dead()
        if a.vararg:
            if star is not None:
                vars_[a.vararg.arg] = self.mkseq(st, fi.node, "tuple", None, join_all(extra + [star]), extra=("va", id(n)))
            else:
                vars_[a.vararg.arg] = self.mkseq(st, fi.node, "tuple", extra, extra=("va", id(n)))
        elif extra:
            self.event("extra_arg", (fi.qual, len(extra)), n)
            self.raised(st)
            raise Dead()
        if a.kwarg:
            vars_[a.kwarg.arg] = self.mkdict(st, fi.node, kw, rest if rest is not None else BOT, extra=("kw", id(n)))
        elif kw:
            self.event("extra_arg", (fi.qual, tuple(sorted(kw))), n)
            self.raised(st)
            raise Dead()
        return vars_

    def default_value(self, fi, parent, nm, d, st):
        if isinstance(d, ast.Constant):
            return const(d.value) if not isinstance(d.value, complex) else PRIM
        key = (fi.qual, nm)
        save = (self.ctl, self.frame, self.ctx, self.phase)
        self.ctl = Ctl(fi if parent is None else self.ctl.fi)
        self.ctx = self._ctx(0, ("default", fi.qual, nm))
        self.phase = "import"
        if parent is None:
            fr = self.module_frame(fi.module)
            if fr[1] not in st.heap:
                st.heap[fr[1]] = self.st0.heap[fr[1]]
            self.frame = fr
        try:
            v = self.ev(d, st)
            for r in self.alts(v.refs):
                if r[0] == "o":
                    self.meta[r[1]]["origin"] = ("default", fi.qual, nm)
            return v
        except Dead:
            return UNK
        finally:
            self.ctl, self.frame, self.ctx, self.phase = save


BUILTINS = {
    "len", "range", "int", "float", "str", "bool", "list", "dict", "tuple", "set", "min", "max", "abs", "sum",
    "enumerate", "zip", "map", "isinstance", "type", "print", "open", "reversed", "sorted", "callable", "complex",
    "getattr", "setattr", "hasattr", "any", "all", "pow", "round", "super", "iter", "next", "filter", "repr", "id",
    "object", "frozenset", "slice", "vars", "hash", "property", "staticmethod", "issubclass", "divmod", "ord", "chr",
    "Exception", "ValueError", "TypeError", "RuntimeError", "NotImplementedError", "KeyError", "AttributeError",
    "ImportError", "AssertionError", "IndexError", "Warning", "DeprecationWarning", "UserWarning", "NotImplemented",
    "StopIteration", "FloatingPointError", "ZeroDivisionError", "OSError", "IOError", "FileNotFoundError", "__file__",
    "__name__", "copyright", "locals", "globals", "format", "BaseException", "ModuleNotFoundError", "ArithmeticError", "LookupError", "EnvironmentError",
}  # fmt: skip
