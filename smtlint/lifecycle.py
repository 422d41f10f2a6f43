"""Scenarios: the public life of each object, written as driver code and interpreted abstractly."""
import ast
import time

from absint import *
from index import AnalysisBroken, Index

STUBS = {
    "<sklearn>": '''
import numpy as np
class PLSRegression:
    def __init__(self, n_components=2):
        self.n_components = n_components
    def fit(self, X, Y):
        a = (X - np.mean(X, axis=0)) / np.std(X, axis=0, ddof=1)
        b = (Y - np.mean(Y, axis=0)) / np.std(Y, axis=0, ddof=1)
        self.x_rotations_ = np.zeros((X.shape[1], self.n_components)) + np.mean(a) * np.mean(b)
        return self
class LinearRegression:
    def fit(self, X, Y):
        a = X - np.mean(X, axis=0)
        b = Y - np.mean(Y, axis=0)
        self.coef_ = np.dot(np.linalg.inv(np.dot(a.T, a)), np.dot(a.T, b)).T
        self.x0 = np.mean(X, axis=0)
        self.y0 = np.mean(Y, axis=0)
        return self
    def predict(self, X):
        return np.dot(X - self.x0, self.coef_.T) + self.y0
''',
    "smt.surrogate_models.rbfclib": '''
class PyRBF:
    def __init__(self):
        pass
    def setup(self, nx, nt, num_dof, poly_degree, d0, xt):
        self.xt = xt + 0
    def compute_jac(self, n, x, jac):
        __h_out(jac, x, self.xt)
    def compute_jac_derivs(self, n, kx, x, jac):
        __h_out(jac, x, self.xt)
''',
    "smt.surrogate_models.idwclib": '''
class PyIDW:
    def __init__(self):
        pass
    def setup(self, nx, nt, p, xt):
        self.xt = xt + 0
    def compute_jac(self, n, x, jac):
        __h_out(jac, x, self.xt)
    def compute_jac_derivs(self, n, kx, x, jac):
        __h_out(jac, x, self.xt)
''',
    "smt.surrogate_models.rmtsclib": '''
class PyRMTB:
    def __init__(self):
        pass
    def setup(self, nx, lower, upper, order_list, ncp_list):
        pass
    def compute_ext_dist(self, n, nterm, x, dx):
        __h_out(dx, x)
    def compute_quadrature_points(self, n, nelem_list, x):
        __h_out(x, nelem_list)
    def compute_jac(self, ix1, ix2, n, t, data, rows, cols):
        __h_out(data, t)
        __h_out(rows, t)
        __h_out(cols, t)

class PyRMTC:
    def __init__(self):
        pass
    def setup(self, nx, lower, upper, nelem_list, nterm_list):
        pass
    def compute_ext_dist(self, n, nterm, x, dx):
        __h_out(dx, x)
    def compute_quadrature_points(self, n, nelem_list, x):
        __h_out(x, nelem_list)
    def compute_coeff2nodal(self, mtx):
        __h_out(mtx, mtx)
    def compute_uniq2elem(self, data, rows, cols):
        __h_out(data, data)
        __h_out(rows, rows)
        __h_out(cols, cols)
    def compute_full_from_block(self, mtx, data, rows, cols):
        __h_out(data, mtx)
        __h_out(rows, mtx)
        __h_out(cols, mtx)
    def compute_jac(self, ix1, ix2, n, x, data, rows, cols):
        __h_out(data, x)
        __h_out(rows, x)
        __h_out(cols, x)
''',
}


_STUBS = {}


def stubs(repo):
    """the stand-ins of the native modules, with whatever else their C++ code may write"""
    if repo not in _STUBS:
        import native

        out = dict(STUBS)
        for (mod, cls, name), ps in sorted(native.written(repo).items()):
            k = "smt.surrogate_models." + mod
            if k not in out:
                continue
            tree = ast.parse(out[k])
            for c in tree.body:
                for m in c.body if isinstance(c, ast.ClassDef) and c.name == cls else ():
                    if isinstance(m, ast.FunctionDef) and m.name == name:
                        have = {x.args[0].id for x in ast.walk(m) if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "__h_out"}
                        for p in sorted(ps - have):
                            m.body.append(ast.parse("__h_out(%s, %s)" % (p, p)).body[0])
            out[k] = ast.unparse(ast.fix_missing_locations(tree))
        _STUBS[repo] = out
    return _STUBS[repo]


class Run:
    """one scenario: driver source interpreted on a fresh heap"""

    def __init__(self, ix, src, config=None, hooks=None, args=None, budget=400000, override=None):
        self.ix = ix
        self.t0 = time.time()
        self.I = I = Interp(ix)
        I.config = dict(config or {})
        I.budget = budget
        I.hooks = {"h": {"arg": self.h_arg, "phase": self.h_phase, "out": self.h_out, "keep": self.h_keep, "user": self.h_user, "any": self.h_any, "count": self.h_count, "own": self.h_own}}
        I.hooks.update(hooks or {})
        if "units" in I.hooks:
            I.hooks["ext_call"] = self.ext_units
            # the functions of the user give outputs
            I.hooks["user_call"] = lambda name, args, kw, n, st: I.arr(st, n, Abs(U(0, 1, 0, 1)), extra="user")
        I.real_options = I.hooks.pop("real_options", False)
        if I.hooks.pop("trace", False):
            I.trace = set()
        self.args = args or {}
        self.kept = {}
        self.dead = False
        for k, s in stubs(ix.repo).items():
            if k not in ix.modules:
                ix.add_source(k, s)
        saved = []
        for (cname, attr), expr in (override or {}).items():
            k = ix.cls(cname)
            if attr not in k.attrs:
                raise AnalysisBroken("class attribute %s.%s not found" % (cname, attr))
            saved.append((k, attr, k.attrs[attr]))
            k.attrs[attr] = ast.parse(expr, mode="eval").body
        self.mod = ix.add_source("<driver>", src)
        fi = self.mod.functions["main"]
        self.fi = fi
        st = St({})
        st.heap = I.st0.heap
        I.module_frame(self.mod)
        st = St(dict(I.st0.heap))
        root = FuncInfo.__new__(FuncInfo)
        root.node, root.module, root.cls, root.outer, root.name, root.qual, root.decorators = self.mod.tree, self.mod, None, None, "<root>", "<driver>:<root>", []
        I.ctl = Ctl(root)
        I.frame = I.module_frame(self.mod)
        self.st = st
        try:
            self.result = I.call_func(fi, None, [], {}, fi.node, st, gc=False)
        except Dead:
            self.dead = True
            self.result = BOT
        finally:
            for k, attr, e in saved:
                k.attrs[attr] = e
        self.wall = time.time() - self.t0
        del ix.modules["<driver>"]

    # ---- intrinsics
    def h_phase(self, args, kw, n, st):
        self.I.phase = args[0].single_const()
        return NONE

    def h_arg(self, args, kw, n, st):
        """__h_arg(name): a caller-owned array"""
        name = args[0].single_const()
        spec = dict(self.args.get(name, {}))
        a = spec.get("a", TOPA)
        sh = spec.get("shape")
        return self.I.arr(st, n, a, shape=sh, extra=("arg", name), origin=("caller", name))

    def h_any(self, args, kw, n, st):
        return PRIM

    def h_count(self, args, kw, n, st):
        """__h_count(name): some positive int"""
        return V(prim=True, a=Abs(None, 1, INF, E0), dim=sym_var(args[0].single_const()))

    def h_own(self, args, kw, n, st):
        """__h_own(object, name): the object (and what it holds) belongs to the caller"""
        nm = args[1].single_const()
        seen = set()

        def rec(v):
            for r in v.refs:
                if r[0] != "o" or r[1] in seen:
                    continue
                seen.add(r[1])
                self.I.meta[r[1]]["origin"] = ("caller", nm)
                o = self.I.obj(st, r)
                if o.kind in ("list", "tuple", "set"):
                    rec(o.all())
                elif o.kind == "dict":
                    for w in o.keys.values():
                        rec(w)

        rec(args[0])
        return NONE

    def h_user(self, args, kw, n, st):
        return ref(("user", args[0].single_const()))

    def h_out(self, args, kw, n, st):
        """a native function fills its first argument from the others; of pure numbers it makes pure numbers"""
        t = self.I.at(st, args[1]).tags
        u = UT
        if "units" in self.I.hooks and all(self.I.at(st, a).unit in (None, DIMLESS) for a in args[1:]):
            u = DIMLESS
        for r in args[0].refs:
            o = self.I.obj(st, r)
            if o is not None and o.kind == "arr":
                self.I.set_arr(st, r, Abs(u, tags=t | o.a.tags), n, "native out", strong=u is DIMLESS and len(args[0].refs) == 1)
        return NONE

    def ext_units(self, path, args, kw, n, st):
        """libraries whose units matter: scikit-learn estimators, and no result cached by an earlier run"""
        if path in ("pickle.load", "cPickle.load"):
            self.I.raised(st)
            raise Dead()
        if path.startswith("scipy.sparse.linalg.") and path.rsplit(".", 1)[-1] in ("cg", "bicg", "bicgstab", "gmres", "minres", "spsolve") and len(args) > 1:
            I = self.I
            A = [a[1] if isinstance(a, tuple) else a for a in args]
            for v in list(kw.values()):
                I.np.maybe_callback(v, E0, n, st)
            m, b = I.at(st, A[0]), I.at(st, A[1])
            x = I.arr(st, n, Abs(u_mul(b.unit, m.unit, inv=True), -INF, INF, m.tags | b.tags), shape=A[1].shape)
            return x if path.endswith("spsolve") else I.mkseq(st, n, "tuple", [x, PRIM])
        c = self.ix.modules["<sklearn>"].classes.get(path.rsplit(".", 1)[-1]) if path.startswith("sklearn.") else None
        return self.I.instantiate(c, list(args), kw, n, st) if c is not None else None

    def h_keep(self, args, kw, n, st):
        self.kept[args[0].single_const()] = (args[1], st.copy())
        return NONE

