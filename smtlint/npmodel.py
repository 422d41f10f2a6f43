"""Models of numpy / scipy / builtins for the abstract interpreter."""
import ast
import math

from domain import *

NONLIN1 = {"exp", "log", "log10", "sin", "cos", "tan", "tanh", "cosh", "sinh", "arctan", "log1p", "expm1", "arcsin", "arccos"}
IDENT1 = {"copy", "array", "nan_to_num", "sort", "flipud", "fliplr", "flip", "roll", "tile", "repeat", "resize", "delete",
          "unique", "triu", "tril", "diag", "squeeze_copy", "conj", "trim_zeros", "flatten", "cumsum", "around", "round",
          "round_", "floor", "ceil", "rint", "fix", "todense", "toarray", "tocsc", "tocsr", "tocoo", "astype", "tolist", "item",
          "getA1", "diagonal", "take", "compress", "choose", "permutation", "asfortranarray_copy"}  # fmt: skip
VIEW1 = {"asarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "swapaxes",
         "expand_dims", "asanyarray", "ascontiguousarray", "asfarray", "view", "broadcast_to", "check_array", "real", "as_float_array", "moveaxis", "rollaxis"}  # fmt: skip
REDUCE = {"sum", "mean", "min", "max", "amin", "amax", "prod", "std", "var", "median", "nanmin", "nanmax", "nanmean", "nansum",
          "average", "ptp", "norm", "nanstd", "percentile", "quantile"}  # fmt: skip
ARGRED = {"argmin", "argmax", "argsort", "nonzero", "argwhere", "where1", "searchsorted", "lexsort", "flatnonzero", "count_nonzero", "nanargmin", "nanargmax"}
BOOLRED = {"all", "any", "allclose", "array_equal", "isclose", "isnan", "isinf", "isfinite", "isreal", "iscomplex", "in1d", "isin", "logical_and", "logical_or", "logical_not", "isscalar", "array_equiv"}
INPLACE_M = {"sort", "fill", "resize", "put", "partition", "itemset", "setfield", "byteswap", "setflags", "shuffle"}
MUT_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}
LINALG_SOLVE = {"solve", "solve_triangular", "lstsq", "cho_solve", "lu_solve", "spsolve", "solve_banded"}

IT01 = (0.0, 1.0)
BOUNDED = {"slsqp", "l-bfgs-b", "tnc", "trust-constr", "powell", "nelder-mead", None}  # methods of minimize that keep to bounds


def p_clamped(p):
    """after a clamp, what was outside the limits may be inside"""
    return p if p is None or p_inside(p) else None



_DUMP = {}


def _dump(n):
    """structural text of an expression (kept per node)"""
    e = _DUMP.get(id(n))
    if e is None or e[0] is not n:
        e = _DUMP[id(n)] = (n, ast.dump(n))
    return e[1]


def has_point_dim(d):
    """the symbolic length depends on the number of evaluation points"""
    return any("n" in vs for vs, _ in d)


POINTS = sym_var("n")
NPOINTS = "the number of points"


PURE_LIBS = ("numpy", "scipy", "math", "pyDOE2")


class NP:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------------ arithmetic
    def where(self, n):
        fi = self.I.ctl.fi if self.I.ctl else None
        return "%s:%s" % (fi.module.rel if fi else "?", getattr(n, "lineno", "?"))

    def bshape(self, l, r, st):
        a, b = self.shape_of(l, st), self.shape_of(r, st)
        if a is None or b is None:
            return None
        n = max(len(a), len(b))
        a = (ONE,) * (n - len(a)) + a
        b = (ONE,) * (n - len(b)) + b
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif x == ONE:
                out.append(y)
            elif y == ONE:
                out.append(x)
            else:
                out.append(None)
        return tuple(out)

    def shape_of(self, v, st):
        if v.shape is not None:
            return v.shape
        if not v.refs and not v.unk:
            return ()
        return None

    def abs_bin(self, op, a, b, n, same=False):
        I = self.I
        I.unit_ops += 1
        tags = a.tags | b.tags
        if "ix" in tags and op in ("Add", "Sub", "Mult", "Mod", "FloorDiv") and not (b.lo == b.hi == 0):
            tags = tags | {"ixs"}
        if a is BOTA or b is BOTA:
            # an uninitialised operand
            o = b if a is BOTA else a
            return o.with_(tags=tags) if o is not BOTA else BOTA
        lo, hi = -INF, INF
        ca = a.lo if a.lo == a.hi else None
        cb = b.lo if b.lo == b.hi else None
        w = self.where(n)
        if op == "Add":
            u = u_add(a.unit, b.unit, 1, w)
            lo, hi = a.lo + b.lo, a.hi + b.hi
        elif op == "Sub":
            u = u_add(a.unit, b.unit, -1, w)
            lo, hi = a.lo - b.hi, a.hi - b.lo
            if same and u is not None and not is_conf(u) and u != UT:
                pass
        elif op in ("Mult", "MatMult"):
            u = u_mul(a.unit, b.unit, ca, cb)
            lo, hi = imul(a.lo, a.hi, b.lo, b.hi)
            if same:
                lo, hi = (0.0 if op == "Mult" else lo), hi
                if op == "Mult" and lo == 0.0:
                    hi = max(a.lo * a.lo if a.lo > -INF else INF, a.hi * a.hi)
            if op == "MatMult":
                if 0 in (ca, cb):
                    return Abs(None, 0.0, 0.0, tags)
                if a.lo >= 0 and b.lo >= 0:
                    lo, hi = 0.0, INF
                else:
                    lo, hi = -INF, INF
                if ca is not None or cb is not None:
                    u = u_mul(a.unit, b.unit)
        elif op in ("Div", "FloorDiv"):
            u = u_mul(a.unit, b.unit, ca, cb, inv=True)
            if b.lo > 0 or b.hi < 0:
                il, ih = (1.0 / b.hi if b.hi else INF), (1.0 / b.lo if b.lo else INF)
                lo, hi = imul(a.lo, a.hi, min(il, ih), max(il, ih))
            elif b.lo >= 0 and a.lo >= 0:
                lo, hi = 0.0, INF
        elif op == "Pow":
            k = cb
            u = u_pow(a.unit, k)
            if b.unit not in (None, UT) and not is_conf(b.unit) and b.unit[:2] != (0, 0):
                self.pure_number(b, "power", n)
                u = UT
            if k is not None and k == int(k) and int(k) % 2 == 0 and k >= 0:
                m = max(abs(a.lo), abs(a.hi))
                lo = 0.0
                hi = m ** k if m < INF else INF
            elif a.lo >= 0:
                lo = 0.0
                hi = 1.0 if a.hi <= 1 and b.lo >= 0 else INF
        elif op == "Mod":
            u = a.unit if b.unit is None else UT
            lo, hi = (0.0, INF) if a.lo >= 0 else (-INF, INF)
        else:
            u = None
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return Abs(u, lo, hi, tags, p_arith(op, a, b) if a.pos is not None or b.pos is not None else None)

    def binop(self, op, l, r, st, n):
        I = self.I
        # strings
        if op == "Mod" and any(isinstance(c, str) for c in l.consts):
            return PRIM
        if l.all_consts() and r.all_consts() and len(l.consts) * len(r.consts) <= 25:
            res = set()
            ok = True
            for a in l.consts:
                for b in r.consts:
                    try:
                        if op == "Add":
                            x = a + b
                        elif op == "Sub":
                            x = a - b
                        elif op == "Mult":
                            x = a * b
                        elif op == "Div":
                            x = a / b
                        elif op == "FloorDiv":
                            x = a // b
                        elif op == "Mod":
                            x = a % b
                        elif op == "Pow":
                            x = a ** b if abs(b) < 40 else None
                        elif op == "BitAnd":
                            x = a & b
                        elif op == "BitOr":
                            x = a | b
                        else:
                            ok = False
                            break
                        if isinstance(x, (int, float, str, bool)):
                            res.add(x)
                        else:
                            ok = False
                    except Exception:
                        if None in (a, b):
                            continue
                        ok = False
            if ok and res:
                d = None
                a = join_abs(abs_const(c) for c in res)
                if len(res) == 1:
                    c = next(iter(res))
                    d = sym_const(c) if isinstance(c, int) and not isinstance(c, bool) else None
                return V(consts=frozenset(res), a=a, dim=d)
            if ok and not res:
                I.raised(st)
                from absint import Dead

                raise Dead()
        ll = I.has_kind(st, l, "list", "tuple")
        rl = I.has_kind(st, r, "list", "tuple")
        la = I.has_kind(st, l, "arr")
        ra = I.has_kind(st, r, "arr")
        if op == "Add" and ll and rl and not la and not ra:
            ia, ib = I.exact_items(l, st, n), I.exact_items(r, st, n)
            kind = "list" if I.has_kind(st, l, "list") else "tuple"
            if ia is not None and ib is not None and len(ia) + len(ib) <= 40:
                return I.mkseq(st, n, kind, ia + ib)
            return I.mkseq(st, n, kind, None, I.iter_elem(l, st, n).join(I.iter_elem(r, st, n)))
        if op == "Mult" and (ll or rl) and not la and not ra:
            seq, k = (l, r) if ll else (r, l)
            it = I.exact_items(seq, st, n)
            c = k.single_const()
            kind = "list" if I.has_kind(st, seq, "list") else "tuple"
            if it is not None and isinstance(c, int) and len(it) * c <= 40:
                return I.mkseq(st, n, kind, it * c)
            return I.mkseq(st, n, kind, None, I.iter_elem(seq, st, n))
        # instances with operators are not used in the library
        aa, bb = I.at(st, l), I.at(st, r)
        same = l.refs == r.refs and len(l.refs) == 1 and la and l.shape == r.shape or (isinstance(n, ast.BinOp) and _dump(n.left) == _dump(n.right))
        if op in ("BitAnd", "BitOr", "BitXor"):
            a = Abs(None, 0.0, INF, aa.tags | bb.tags)
        else:
            a = self.abs_bin(op, aa, bb, n, same)
        if is_conf(a.unit) and not is_conf(aa.unit) and not is_conf(bb.unit):
            I.event("unit_conflict", a.unit[1], n)
        dim = None
        if l.dim is not None and r.dim is not None:
            if op == "Add":
                dim = sym_add(l.dim, r.dim)
            elif op == "Sub":
                dim = sym_add(l.dim, r.dim, -1)
            elif op == "Mult":
                dim = sym_mul(l.dim, r.dim)
        if la or ra or ll or rl:
            if la != ra and not (r if la else l).unk and op in ("Add", "Sub", "Mult", "Div", "Pow"):
                # the number of points enters the numbers
                a = a.with_(tags=a.tags | frozenset(("mix",) + t[1:] for t in (bb if la else aa).tags if isinstance(t, tuple) and t[0] == "npts"))
            if op == "MatMult":
                a = a.with_(tags=a.tags | self.dot_mixes(l, aa, r, bb, n))
                sh = self.dot_shape(l, r, st)
                if a.lo >= 0 and same:
                    pass
            else:
                sh = self.bshape(l, r, st)
            out = self.I.arr(st, n, a, shape=sh)
            if (l.unk or r.unk) and False:
                out = out.join(UNK)
            return out
        if l.unk or r.unk:
            return V(unk=True, a=a)
        return V(prim=True, a=a, dim=dim)

    def dot_shape(self, l, r, st):
        a, b = self.shape_of(l, st), self.shape_of(r, st)
        if a is None or b is None:
            return None
        if a == () or b == ():
            return a or b
        if len(b) == 1:
            return a[:-1]
        if len(a) <= 2 and len(b) == 2:
            return a[:-1] + b[1:]
        return None

    def unop(self, op, v, st, n):
        I = self.I
        if v.all_consts():
            try:
                res = frozenset((-c if op == "USub" else (+c if op == "UAdd" else ~c)) for c in v.consts)
                a = join_abs(abs_const(c) for c in res)
                d = None
                if len(res) == 1 and isinstance(next(iter(res)), int):
                    d = sym_const(next(iter(res)))
                return V(consts=res, a=a, dim=d)
            except TypeError:
                pass
        a = I.at(st, v)
        if op == "USub":
            a = self.abs_bin("Mult", abs_const(-1), a, n)
        elif op == "Invert":
            a = Abs(None, 0.0, 1.0, a.tags)
        if v.refs:
            if I.has_kind(st, v, "arr", "list"):
                return I.arr(st, n, a, shape=v.shape)
            return UNK
        return V(prim=not v.unk, unk=v.unk, a=a)

    # ------------------------------------------------------------------ attributes
    def ext_attr(self, path):
        if path in ("numpy.newaxis",):
            return NONE
        if path in ("numpy.pi", "math.pi", "numpy.e"):
            return V(prim=True, a=Abs(None, 3.0, 4.0))
        if path in ("numpy.inf", "numpy.Inf"):
            return V(prim=True, a=Abs(None, INF, INF))
        if path in ("numpy.nan", "numpy.NaN"):
            return PRIM
        return ref(("ext", path))

    def prim_attr(self, b, attr, st, n):
        if attr in ("shape", "ndim", "T", "real", "size"):
            # a numpy scalar has them, a Python number or None does not
            if not b.prim:
                return prim(b.a) if attr == "real" else BOT
            if attr == "shape":
                return self.I.mkseq(st, n, "tuple", [])
            return const(0 if attr == "ndim" else 1) if attr in ("ndim", "size") else prim(b.a)
        return ref(("pmeth", attr))

    def ext_item(self, path, k, st, n):
        if path in ("numpy.r_", "numpy.c_"):
            return self.I.arr(st, n, self.I.at(st, k))
        return UNK

    def count(self, d, n):
        """a length; it carries a mark if it tells how many points the call has"""
        t = frozenset([("npts", self.where(n), NPOINTS)]) if d is not None and has_point_dim(d) else E0
        return prim(Abs(None, 0.0, INF, t), dim=d)

    def arr_attr(self, r, o, attr, st, n, b):
        I = self.I
        if attr == "shape":
            if b.shape is not None:
                return I.mkseq(st, n, "tuple", [self.count(d, n) if not sym_is_const(d) else const(sym_int(d)) for d in b.shape])
            return I.mkseq(st, n, "tuple", None, prim(Abs(None, 0.0, INF)))
        if attr in ("T",):
            sh = tuple(reversed(b.shape)) if b.shape is not None else None
            return V(refs=frozenset([r]), shape=sh)
        if attr in ("flat", "real", "imag", "A"):
            return V(refs=frozenset([r]), shape=b.shape if attr != "flat" else None)
        if attr in ("size", "ndim", "nbytes", "itemsize"):
            d = None
            if attr == "size" and b.shape is not None:
                d = ONE
                for x in b.shape:
                    d = sym_mul(d, x)
            if attr == "ndim" and b.shape is not None:
                return const(len(b.shape))
            return self.count(d, n)
        if attr == "dtype":
            return PRIM
        return ref(("ameth", r, attr, b.shape))

    # ------------------------------------------------------------------ indexing
    def index(self, v, r, o, k, st, n):
        I = self.I
        sl = n.slice if isinstance(n, ast.Subscript) else None
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        kvs = None
        if isinstance(sl, ast.Tuple):
            for q in k.refs:
                oo = I.obj(st, q)
                if oo is not None and oo.kind == "tuple" and oo.items is not None:
                    kvs = oo.items
        if kvs is None or len(kvs) != len(elts):
            kvs = [k]
            elts = [sl]
        fancy = False
        kinds = []
        for e, kv in zip(elts, kvs):
            if isinstance(e, ast.Slice) or "<slice>" in kv.consts:
                kinds.append("full" if isinstance(e, ast.Slice) and e.lower is None and e.upper is None and e.step is None else ("slice", e))
            elif kv.only_none():
                kinds.append("new")
            elif "..." in kv.consts:
                kinds.append("ell")
            elif I.has_kind(st, kv, "arr", "list"):
                fancy = True
                kinds.append(("fancy", kv))
            elif I.has_kind(st, kv, "tuple"):
                kinds.append("tup")
            elif kv.unk or kv.refs:
                fancy = True
                kinds.append("unk")
            else:
                kinds.append("int")
        sh = None
        if v.shape is not None and "ell" not in kinds and "tup" not in kinds and "unk" not in kinds:
            out, i = [], 0
            ok = True
            for kd in kinds:
                if kd == "new":
                    out.append(ONE)
                    continue
                if i >= len(v.shape):
                    ok = False
                    break
                if kd == "full":
                    out.append(v.shape[i])
                elif kd == "int":
                    pass
                elif isinstance(kd, tuple) and kd[0] == "slice":
                    out.append(self.slice_dim(kd[1], v.shape[i], st))
                elif isinstance(kd, tuple) and kd[0] == "fancy":
                    fs = kd[1].shape
                    out.append(fs[0] if fs and len(fs) == 1 and len(kinds) > 1 else None)
                i += 1
            if ok:
                out += list(v.shape[i:])
                sh = tuple(out)
            if any(isinstance(kd, tuple) and kd[0] == "fancy" for kd in kinds) and len(kinds) == 1:
                sh = None
        a = o.a
        elem = o.elem
        if a.pos == LIM:
            p = self.limit_of(v.shape, kinds, kvs)
            if p is not None:
                a = a.with_(pos=p)
                return prim(a) if sh == () or (sh is None and len(kinds) >= 2 and all(x == "int" for x in kinds)) else I.arr(st, n, a, shape=sh, elem=elem)
        if "row" in a.tags and v.shape is not None:
            # one particular point picked out of the points of the call
            i = 0
            for kd, kv in zip(kinds, kvs):
                if kd in ("new", "ell"):
                    if kd == "ell":
                        break
                    continue
                if i < len(v.shape) and kd == "int" and isinstance(kv.single_const(), int) and v.shape[i] is not None and has_point_dim(v.shape[i]):
                    self.I.event("row_pick", (kv.single_const(),), n)
                    a = a.with_(tags=a.tags | {("mix", self.where(n), "one fixed point")})
                    if sh == () or (sh is None and len(kinds) >= 2):
                        break
                    return I.arr(st, n, a, shape=sh, elem=elem)
                if i < len(v.shape) and kd == "int" and v.shape[i] == POINTS and "ixs" in self.I.at(st, kv).tags:
                    self.I.event("row_pick", ("shifted",), n)
                    a = a.with_(tags=a.tags | {("mix", self.where(n), "another point of the call")})
                    return prim(a) if all(x == "int" for x in kinds) and len(kinds) >= len(v.shape) else I.arr(st, n, a, shape=sh, elem=elem)
                i += 1
        if "row" in a.tags and v.shape is None and kinds == ["int"] and "ixs" in I.at(st, kvs[0]).tags:
            a = a.with_(tags=a.tags | {("mix", self.where(n), "another point of the call")})
            return V(refs=frozenset([r]), prim=True, a=a).join(I.arr(st, n, a, elem=elem))
        if fancy:
            tg = E0
            for kv in kvs:
                tg = tg | I.at(st, kv).tags
            mixed = frozenset(t for t in tg if isinstance(t, tuple) and t[0] == "mix")
            res = I.arr(st, n, a.with_(tags=a.tags | mixed) if mixed else a, shape=sh, elem=elem)
            if elem is not None:
                res = res.join(elem)
            return res
        if all(x == "int" for x in kinds) and (sh == () or (sh is None and len(kinds) >= 2)):
            res = prim(a)
            return res.join(elem) if elem is not None else res
        if kinds == ["int"] and v.shape is None:
            res = V(refs=frozenset([r]), prim=True, a=a)
            return res.join(elem) if elem is not None else res
        return V(refs=frozenset([r]), shape=sh)

    def limit_of(self, shape, kinds, kvs):
        """which of the two limits an index picks out of the array of the limits"""
        if "ell" in kinds and len(kinds) == 2 and kinds[0] == "ell":
            return self.nth_limit(kvs[1])
        i, out = 0, None
        for kd, kv in zip(kinds, kvs):
            if kd == "new":
                continue
            if kd in ("ell", "tup", "unk"):
                return None
            if shape is not None and i < len(shape):
                if shape[i] == sym_const(2) and kd != "full":
                    out = out or (self.nth_limit(kv) if kd == "int" else P_IN)
                elif kd == "int" and len(kinds) > 1 and shape[i] == sym_var("nx") and isinstance(kv.single_const(), int):
                    out = OTHER
            i += 1
        return out

    def nth_limit(self, kv):
        c = kv.single_const()
        return {0: P_L, 1: P_H, -1: P_H, -2: P_L}.get(c, P_IN) if isinstance(c, int) and not isinstance(c, bool) else P_IN

    def slice_dim(self, e, d, st):
        part = sym_mul(d, sym_var("part")) if d is not None and has_point_dim(d) else None
        if e is None or e.step is not None:
            return part
        up = self.I.ev(e.upper, st).dim if e.upper is not None else d
        lo = self.I.ev(e.lower, st).dim if e.lower is not None else ()
        if up is None or lo is None:
            return part
        if sym_is_const(up) and sym_int(up) < 0:
            up = sym_add(d, up)
        return sym_add(up, lo, -1)

    # ------------------------------------------------------------------ helpers
    def shape_arg(self, v, st):
        I = self.I
        if v.dim is not None:
            return (v.dim,)
        if len(v.refs) == 1:
            o = I.obj(st, next(iter(v.refs)))
            if o is not None and o.kind in ("tuple", "list") and o.items is not None:
                return tuple(i.dim for i in o.items)
        if not v.refs and not v.unk:
            return (None,)
        return None

    def reduce_shape(self, sh, axis, keep):
        if sh is None:
            return None
        if axis is None:
            return ()
        if isinstance(axis, int) and -len(sh) <= axis < len(sh):
            ax = axis % len(sh)
            if keep:
                return sh[:ax] + (ONE,) + sh[ax + 1 :]
            return sh[:ax] + sh[ax + 1 :]
        return None

    def mixes(self, name, a, sh, ax, n):
        """the tags of a result that combines different evaluation points (rows of the argument)"""
        if "row" not in a.tags:
            return E0
        if sh is None or (isinstance(ax, str) or (isinstance(ax, int) and not -len(sh) <= ax < len(sh))):
            self.I.event("mix_unknown", (name,), n)
            return E0
        if ax is None:
            red = sh
        else:
            red = (sh[ax],)
        if any(d is not None and has_point_dim(d) for d in red):
            return frozenset([("mix", self.where(n), name)])
        if None in red and not any(d is not None and has_point_dim(d) for d in sh):
            self.I.event("mix_unknown", (name,), n)
        return E0

    def a_reduce(self, name, a, n):
        t = a.tags
        if name in ("sum", "nansum"):
            u = a.unit
            if u not in (None, UT) and not is_conf(u):
                u = (u[0], u[1], "?" if u[2] != 0 else u[2], "?" if u[3] != 0 else u[3])
            return Abs(u, 0.0 if a.lo >= 0 else -INF, 0.0 if a.hi <= 0 else INF, t)
        if name in ("mean", "min", "max", "amin", "amax", "median", "nanmin", "nanmax", "nanmean", "average", "percentile", "quantile"):
            return a
        if name in ("std", "ptp", "nanstd"):
            return Abs(u_diffscale(a.unit), 0.0, INF, t, (-1.0, -1.0, 1.0, 1.0, 0.0, 0.0) if name == "ptp" and a.pos == LIM else None)
        if name == "var":
            return Abs(u_pow(u_diffscale(a.unit), 2), 0.0, INF, t)
        if name == "norm":
            return Abs(u_nonlin(a.unit), 0.0, INF, t)
        if name == "prod":
            dl = a.unit if a.unit is None or is_conf(a.unit) else (UT if a.unit == UT or a.unit[:2] != (0, 0) else u_nonlin(a.unit))
            if a.lo >= 0:
                return Abs(dl, 0.0, a.hi if a.hi <= 1 else INF, t)
            return Abs(dl, -INF, INF, t)
        return Abs(UT, -INF, INF, t)

    def kwget(self, args, kwargs, i, name, default=None):
        if name in kwargs:
            return kwargs[name]
        if i is not None and i < len(args) and not isinstance(args[i], tuple):
            return args[i]
        return default

    def a_of(self, v, st):
        return self.I.at(st, v)

    def result(self, v, st, n, a, shape=None):
        """array or scalar result, following the kind of v"""
        I = self.I
        if v.refs or v.unk:
            out = I.arr(st, n, a, shape=shape)
            if v.prim or v.consts - {None}:
                out = out.join(prim(a))
            return out
        return prim(a)

    def elem1(self, name, v, st, n):
        a = self.a_of(v, st)
        u, lo, hi = a.unit, -INF, INF
        if a is BOTA:
            return self.result(v, st, n, BOTA, v.shape)
        if name in NONLIN1:
            if not name.startswith("log"):
                self.pure_number(a, name, n)
            u2 = u_transc(u)
            if u not in (None, UT) and not is_conf(u) and u[:2] != (0, 0) and name in ("exp", "sin", "cos", "tanh", "sinh", "cosh"):
                u2 = UT
            u = u2 if u2 is None or is_conf(u2) or u2 == UT else u2
            if name in ("log", "log10", "log1p"):
                u = UT if u is None else u
                u = a.unit if a.unit is None else (u_transc(a.unit))
            if name == "exp":
                lo, hi = 0.0, (1.0 if a.hi <= 0 else INF)
            elif name == "cosh":
                lo = 1.0
            elif name in ("sin", "cos", "tanh"):
                lo, hi = -1.0, 1.0
        elif name in ("sqrt",):
            u = u_pow(u, 0.5)
            lo, hi = 0.0, (1.0 if a.hi <= 1 else INF)
        elif name in ("abs", "absolute", "fabs"):
            u = u_nonlin(u)
            lo = 0.0 if a.lo < 0 else a.lo
            hi = max(abs(a.lo), abs(a.hi))
        elif name == "square":
            u = u_pow(u, 2)
            lo = 0.0
        elif name == "sign":
            u = None
            lo, hi = -1.0, 1.0
        elif name == "negative":
            return self.unop("USub", v, st, n)
        return self.result(v, st, n, Abs(u, lo, hi, a.tags), v.shape)

    def pure_number(self, a, what, n):
        """the argument of a transcendental function has no unit"""
        u = a.unit
        if u not in (None, UT) and not is_conf(u) and u[:2] != (0, 0):
            self.I.event("unit_conflict", "%s: %s of %s" % (self.where(n), what, u_str(u)), n)

    # ------------------------------------------------------------------ external calls
    def ext_call(self, path, args, kwargs, n, st):
        I = self.I
        A = [a[1] if isinstance(a, tuple) else a for a in args]
        short = path.split(".")[-1]
        root = path.split(".")[0]
        out = kwargs.get("out")
        if out is not None and not out.only_none():
            v = self.ext_call(path, args, {k: w for k, w in kwargs.items() if k != "out"}, n, st)
            strong = len(out.refs) == 1 and not out.unk and "where" not in kwargs
            for r in self.I.alts(out.refs):
                I.set_arr(st, r, I.at(st, v), n, "out=", strong=strong)
            return out
        h = I.hooks.get("ext_call")
        if h:
            v = h(path, args, kwargs, n, st)
            if v is not None:
                return v
        I.event("ext_call", path, n)
        if I.trace is not None:
            for x in list(enumerate(A)) + sorted(kwargs.items()):
                if x[1].consts:
                    I.trace.add((path, x[0], tuple(sorted(repr(c) for c in x[1].consts))))
        if path.startswith(("sys.stdout.", "sys.stderr.", "sys.__stdout__.", "sys.__stderr__.")) and path.endswith((".write", ".writelines")) or path.startswith("pprint."):
            I.event("print", (), n)
            return PRIM
        if path.startswith("numpy.random.") or path.startswith("random."):
            return self.rng("global", short, A, kwargs, n, st)
        if root in ("time",) or path in ("datetime.datetime.now", "uuid.uuid4", "os.urandom", "os.getpid"):
            I.event("nondet", path, n)
            return PRIM
        if root == "numpy" or root == "scipy" or root == "math" or root == "sklearn" or root == "pyDOE2" or root == "copy":
            m = getattr(self, "x_" + short, None)
            if m is not None:
                return m(path, A, kwargs, n, st)
            if root == "numpy" or path.startswith("scipy.linalg") or path.startswith("math") or path.startswith("scipy.special"):
                v = self.generic(short, A, kwargs, n, st)
                if v is not None:
                    return v
        for m in ("minimize", "differential_evolution"):
            if short == m and root == "scipy":
                return self.x_minimize(path, A, kwargs, n, st)
        if root == "collections" and short == "defaultdict":
            return I.mkdict(st, n, {}, BOT, factory=A[0] if A else None)
        if root == "collections" and short == "OrderedDict":
            return self.builtin("dict", args, kwargs, n, st)
        if path == "copy.deepcopy" or path == "copy.copy":
            return self.x_deepcopy(path, A, kwargs, n, st)
        if short in ("filterwarnings", "simplefilter", "warn", "seterr"):
            I.event("ext_global", path, n)
            return NONE
        tags = E0
        for v in A + list(kwargs.values()):
            tags = tags | I.at(st, v).tags
        # callbacks handed to unknown code may be called
        for v in A + list(kwargs.values()):
            self.maybe_callback(v, tags, n, st)
        if "units" in I.hooks and short and not short[0].isupper() and root in PURE_LIBS and self.pure(A + list(kwargs.values()), st):
            return I.arr(st, n, Abs(DIMLESS, tags=tags)).join(prim(Abs(DIMLESS, tags=tags)))
        if short and short[0].isupper() or root not in ("numpy", "scipy", "math"):
            return V(unk=True, a=Abs(UT, tags=tags), refs=frozenset([("xobj", path)]))
        I.unresolved[path] = I.unresolved.get(path, 0) + 1
        v = I.arr(st, n, Abs(UT, tags=tags))
        return v.join(UNK)

    def pure(self, A, st):
        """only pure numbers"""
        return not any(v.unk or any(r[0] != "o" for r in v.refs) or self.I.at(st, v).unit not in (None, DIMLESS) for v in A)

    def maybe_callback(self, v, tags, n, st):
        I = self.I
        from absint import Dead

        for r in self.I.alts(v.refs):
            if r[0] in ("func", "bound"):
                s = st.copy()
                np_ = len(r[1].params()) - (1 if r[0] == "bound" else 0) - len(r[1].node.args.defaults)
                try:
                    args = [I.arr(s, n, Abs(UT, tags=tags), extra=("cb", i)) for i in range(max(np_, 0))]
                    I.call_ref(r, args, {}, n, s, v)
                    st.heap = st.join(s).heap
                except Dead:
                    pass

    def rng(self, src, name, A, kwargs, n, st):
        I = self.I
        if name == "RandomState" or name == "default_rng":
            seed = A[0] if A else kwargs.get("seed", NONE)
            s = "seeded"
            if None in seed.consts:
                s = "entropy" if seed.only_none() else "maybe"
            return ref(("rng", s))
        if name == "seed":
            I.event("rng_seed", (), n)
            return NONE
        I.event("rng", (src, name), n)
        tg = frozenset([("rng", src)])
        if name in ("rand", "random", "random_sample", "uniform", "ranf", "sample"):
            a = Abs(None, 0.0, 1.0, tg)
            if name == "uniform" and (A or kwargs):
                l = self.a_of(A[0], st) if A else self.a_of(kwargs["low"], st) if "low" in kwargs else abs_const(0.0)
                h = self.a_of(A[1], st) if len(A) > 1 else self.a_of(kwargs["high"], st) if "high" in kwargs else abs_const(1.0)
                a = Abs(u_join(l.unit, h.unit), l.lo, h.hi, tg, p_join(l.pos, h.pos)) if BOTA not in (l, h) else Abs(None, -INF, INF, tg)
            if name == "rand" and not A or name in ("random",) and not A:
                return prim(a)
            sh = None
            if name == "rand":
                sh = tuple(x.dim for x in A)
            return I.arr(st, n, a, shape=sh)
        if name in ("permutation", "choice") and A:
            a = self.a_of(A[0], st)
            return I.arr(st, n, Abs(a.unit, a.lo if A[0].refs else 0.0, a.hi, a.tags | tg, a.pos))
        if name == "shuffle":
            for r in self.I.alts(A[0].refs):
                o = I.obj(st, r)
                if o is not None and o.kind == "arr":
                    I.set_arr(st, r, o.a, n, "shuffle")
                elif o is not None:
                    I.mutated(st, r, n, "shuffle")
            return NONE
        if name == "randint":
            return prim(Abs(None, 0.0, INF, tg)) if "size" not in kwargs and len(A) < 3 else I.arr(st, n, Abs(None, 0.0, INF, tg))
        a = Abs(None, -INF, INF, tg)
        return I.arr(st, n, a).join(prim(a)) if A or kwargs else prim(a)

    def generic(self, name, A, kw, n, st):
        I = self.I
        if not A and name not in ("zeros", "ones", "empty"):
            A = list(kw.values())
        a0 = self.a_of(A[0], st) if A else TOPA
        if name in NONLIN1 or name in ("sqrt", "abs", "absolute", "fabs", "square", "sign", "negative"):
            return self.elem1(name, A[0], st, n)
        if name in VIEW1:
            return self.view(name, A, kw, n, st)
        if name in REDUCE:
            return self.reduce(name, A, kw, n, st)
        if name in ARGRED:
            I.event("reduce", (name, self.axis_of(A, kw), a0.tags), n)
            return self.argred(name, A, kw, n, st)
        if name in BOOLRED:
            t = E0
            for v in A:
                t = t | self.a_of(v, st).tags
            if name in ("all", "any"):
                t = t | self.mixes(name, self.a_of(A[0], st), A[0].shape, self.axis_of(A, kw), n)
            b = Abs(None, 0.0, 1.0, t)
            if name in ("all", "any", "allclose", "array_equal", "isscalar", "array_equiv"):
                ax = self.axis_of(A, kw)
                if ax is None:
                    return BOOL.with_(a=b)
                return I.arr(st, n, b, shape=self.reduce_shape(A[0].shape, ax, False)).join(BOOL.with_(a=b))
            if A and not A[0].refs and not A[0].unk:
                return BOOL.with_(a=b)
            return I.arr(st, n, b, shape=A[0].shape)
        if name in IDENT1:
            a = a0
            if name in ("sort", "unique", "cumsum", "cumprod", "roll", "flip", "flipud", "diff", "gradient"):
                ax = self.axis_of(A, kw, 2 if name == "roll" else 1)
                a = a.with_(tags=a.tags | self.mixes(name, a, A[0].shape, ax if ax is not None or name != "sort" else -1, n))
            if name in ("cumsum",):
                a = self.a_reduce("sum", a0, n)
            if name in ("cumprod", "diff", "gradient"):
                a = a.with_(pos=None)
            sh = A[0].shape if name in ("sort", "flip", "flipud", "fliplr", "roll", "cumsum", "round", "floor", "ceil", "around", "triu", "tril") else None
            if name in ("round", "around", "floor", "ceil", "rint", "fix") and not A[0].refs and not A[0].unk:
                return prim(a)
            if name == "unique" and "return_inverse" in kw or name == "unique" and "return_counts" in kw or name == "unique" and "return_index" in kw:
                return I.mkseq(st, n, "tuple", None, I.arr(st, n, a))
            return I.arr(st, n, a, shape=sh)
        return None

    def axis_of(self, A, kw, i=1):
        v = kw.get("axis")
        if v is None and len(A) > i:
            v = A[i]
        if v is None:
            return None
        c = v.single_const()
        if c is None:
            return None
        if isinstance(c, int):
            return c
        return "?"

    def argred(self, name, A, kw, n, st):
        I = self.I
        ax = self.axis_of(A, kw)
        a = self.a_of(A[0], st)
        a = Abs(None, 0.0, INF, a.tags | self.mixes(name, a, A[0].shape, ax if ax is not None or name not in ("argsort",) else -1, n))
        if name in ("argmin", "argmax", "nanargmin", "nanargmax", "count_nonzero") and ax is None:
            return prim(a)
        if name == "nonzero":
            return I.mkseq(st, n, "tuple", None, I.arr(st, n, a))
        return I.arr(st, n, a, shape=self.reduce_shape(A[0].shape, ax, False) if name in ("argmin", "argmax") else A[0].shape if name == "argsort" and ax is not None else None)

    def reduce(self, name, A, kw, n, st):
        I = self.I
        v = A[0]
        a = self.a_of(v, st)
        ax = self.axis_of(A, kw, 2 if name in ("norm",) else 1)
        if name in ("percentile", "quantile"):
            ax = self.axis_of(A, kw, 2)
        if name == "norm" and len(A) > 1 and "axis" not in kw and len(A) < 3:
            ax = None
        I.event("reduce", (name, ax, a.tags, v.shape), n)
        a = a.with_(tags=a.tags | self.mixes(name, a, v.shape, ax, n))
        r = self.a_reduce(name, a, n)
        if r.pos is not None and v.shape is not None and sym_var("nx") in (v.shape if ax is None or not isinstance(ax, int) or not -len(v.shape) <= ax < len(v.shape) else (v.shape[ax],)):
            r = r.with_(pos=OTHER if name in ("min", "max", "amin", "amax", "mean") else None)
        keep = kw.get("keepdims", FALSE).single_const() is True
        sh = self.reduce_shape(v.shape, ax, keep)
        if ax is None and not keep:
            return prim(r, dim=sym_var("prod@%s" % getattr(n, "lineno", 0)) if name == "prod" else None)
        return I.arr(st, n, r, shape=sh)

    def view(self, name, A, kw, n, st):
        I = self.I
        v = A[0]
        if name in ("real",):
            # np.real of a real array is the array itself
            pass
        refs = frozenset(r for r in v.refs if I.obj(st, r) is not None and I.obj(st, r).kind == "arr")
        others = v.refs - refs
        sh = None
        if name == "reshape":
            if len(A) > 1:
                if len(A) == 2:
                    sh = self.shape_arg(A[1], st)
                else:
                    sh = tuple(x.dim for x in A[1:])
            elif "newshape" in kw:
                sh = self.shape_arg(kw["newshape"], st)
            if sh is not None:
                if any(d == sym_const(-1) for d in sh):
                    tot = ONE
                    if v.shape is not None:
                        for d in v.shape:
                            tot = sym_mul(tot, d)
                    else:
                        tot = None
                    known = [d for d in sh if d != sym_const(-1)]
                    rest = None
                    if known == [ONE] or not known:
                        rest = tot
                    elif len(known) == 1 and v.shape is not None and known[0] in v.shape:
                        o = list(v.shape)
                        o.remove(known[0])
                        rest = ONE
                        for d in o:
                            rest = sym_mul(rest, d)
                    sh = tuple(rest if d == sym_const(-1) else d for d in sh)
        elif name in ("ravel",):
            if v.shape is not None:
                t = ONE
                for d in v.shape:
                    t = sym_mul(t, d)
                sh = (t,)
        elif name in ("asarray", "asanyarray", "ascontiguousarray", "asfarray", "check_array", "real", "as_float_array"):
            sh = v.shape
        elif name in ("transpose",):
            if len(A) == 1 and v.shape is not None:
                sh = tuple(reversed(v.shape))
        elif name == "squeeze":
            if v.shape is not None and all(d is not None for d in v.shape):
                sh = None
        elif name == "atleast_2d" and v.shape is not None:
            sh = v.shape if len(v.shape) >= 2 else (ONE,) + (v.shape if v.shape else (ONE,))
        elif name == "atleast_1d" and v.shape is not None:
            sh = v.shape if v.shape else (ONE,)
        out = V(refs=refs, shape=sh)
        if others or v.prim or v.unk or (v.consts - {None}):
            a = self.a_of(v.with_(refs=others), st)
            if "units" in I.hooks and self.only_objects(v, st):
                a = a.with_(unit=None)
            f = I.arr(st, n, a, shape=sh, elem=self.nonnum_elems(v, st))
            out = V(refs=out.refs | f.refs, shape=sh)
        if out.is_bot():
            return I.arr(st, n, self.a_of(v, st))
        return out

    def nonnum_elems(self, v, st):
        """instances or strings stored in a sequence turned into an object array"""
        I = self.I
        for r in self.I.alts(v.refs):
            o = I.obj(st, r)
            if o is not None and o.kind in ("list", "tuple"):
                e = o.all()
                rs = frozenset(x for x in e.refs if I.obj(st, x) is None or I.obj(st, x).kind in ("inst", "dict"))
                if rs:
                    return V(refs=rs)
        return None

    # numpy constructors ------------------------------------------------
    def _ctor(self, a, A, kw, n, st):
        sv = A[0] if A else kw.get("shape", UNK)
        return self.I.arr(st, n, a, shape=self.shape_arg(sv, st))

    def x_zeros(self, p, A, kw, n, st):
        return self._ctor(Abs(None, 0.0, 0.0), A, kw, n, st)

    def x_ones(self, p, A, kw, n, st):
        return self._ctor(Abs(None, 1.0, 1.0), A, kw, n, st)

    def x_empty(self, p, A, kw, n, st):
        return self._ctor(BOTA, A, kw, n, st)

    def x_full(self, p, A, kw, n, st):
        return self._ctor(self.a_of(A[1], st) if len(A) > 1 else TOPA, A, kw, n, st)

    def x_zeros_like(self, p, A, kw, n, st):
        return self.I.arr(st, n, Abs(None, 0.0, 0.0), shape=A[0].shape)

    def x_ones_like(self, p, A, kw, n, st):
        return self.I.arr(st, n, Abs(None, 1.0, 1.0), shape=A[0].shape)

    def x_empty_like(self, p, A, kw, n, st):
        return self.I.arr(st, n, BOTA, shape=A[0].shape)

    def x_eye(self, p, A, kw, n, st):
        d = A[0].dim
        return self.I.arr(st, n, Abs(None, 0.0, 1.0), shape=(d, A[1].dim if len(A) > 1 else d))

    x_identity = x_eye

    def x_arange(self, p, A, kw, n, st):
        if len(A) == 1:
            return self.I.arr(st, n, Abs(None, 0.0, INF), shape=(A[0].dim,))
        return self.I.arr(st, n, self.a_of(A[0], st).join(self.a_of(A[1], st)).with_(unit=None), shape=(None,))

    def x_linspace(self, p, A, kw, n, st):
        num = A[2] if len(A) > 2 else kw.get("num", PRIM)
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        return self.I.arr(st, n, a.join(b), shape=(num.dim,))

    def x_array(self, p, A, kw, n, st):
        I = self.I
        v = A[0] if A else kw.get("object", UNK)
        cp = kw.get("copy")
        if cp is not None and cp.single_const() is not True:
            return self.view("asarray", [v], {}, n, st)
        sh = v.shape
        if sh is None:
            it = I.exact_items(v, st, n)
            if it is not None:
                inner = [self.shape_of(x, st) if not I.has_kind(st, x, "list", "tuple") else self.seq_shape(x, st) for x in it]
                if inner and all(s == inner[0] for s in inner) and inner[0] is not None:
                    sh = (sym_const(len(it)),) + inner[0]
        a = self.a_of(v, st)
        if "units" in I.hooks and self.only_objects(v, st):
            a = a.with_(unit=None)  # the units are those of the objects in it
        return I.arr(st, n, a, shape=sh, elem=self.nonnum_elems(v, st))

    def only_objects(self, v, st):
        """a sequence that holds nothing but dictionaries or instances"""
        some = False
        for r in v.refs:
            o = self.I.obj(st, r)
            if o is None or o.kind not in ("list", "tuple"):
                return False
            e = o.all()
            if e.unk or e.prim or e.consts or any(self.I.obj(st, q) is None or self.I.obj(st, q).kind not in ("dict", "inst") for q in e.refs):
                return False
            some = some or bool(e.refs)
        return some

    def seq_shape(self, v, st):
        it = self.I.exact_items(v, st, None)
        if it is None:
            return None
        inner = [self.shape_of(x, st) if not self.I.has_kind(st, x, "list", "tuple") else self.seq_shape(x, st) for x in it]
        if inner and all(s == inner[0] for s in inner) and inner[0] is not None:
            return (sym_const(len(it)),) + inner[0]
        return None

    def x_copy(self, p, A, kw, n, st):
        if p == "copy.copy":
            return self.x_deepcopy(p, A, kw, n, st)
        return self.x_array(p, A, {}, n, st)

    def x_deepcopy(self, p, A, kw, n, st):
        I = self.I
        shallow = p == "copy.copy"
        v = A[0]
        memo = {}

        def cp(v, d):
            refs = set()
            for r in self.I.alts(v.refs):
                o = I.obj(st, r)
                if o is None or d > 6:
                    refs.add(r)
                    continue
                if r in memo:
                    refs.add(memo[r])
                    continue
                nr = I.new(st, o, n, ("cp", r[1]))
                memo[r] = nr
                refs.add(nr)
                if shallow:
                    continue
                if o.kind == "inst":
                    from absint import Inst

                    st.heap[nr[1]] = Inst(o.cls, {k: cp(x, d + 1) for k, x in o.attrs.items()}, o.eps, o.may)
                elif o.kind in ("list", "tuple", "set"):
                    from absint import Seq

                    st.heap[nr[1]] = Seq(o.kind, tuple(cp(x, d + 1) for x in o.items) if o.items is not None else None, cp(o.elem, d + 1), o.ep)
                elif o.kind == "dict":
                    from absint import Dct

                    st.heap[nr[1]] = Dct({k: cp(x, d + 1) for k, x in o.keys.items()}, cp(o.rest, d + 1), o.factory, o.ep, o.must)
                elif o.kind == "opts":
                    from absint import Opts

                    st.heap[nr[1]] = Opts(o.decl, {k: cp(x, d + 1) for k, x in o.vals.items()}, o.ep)
            return v.with_(refs=frozenset(refs))

        return cp(v, 0)

    def _concat(self, A, kw, n, st, axis=None):
        I = self.I
        v = A[0]
        it = I.iter_elem(v, st, n) if not I.has_kind(st, v, "arr") else v
        a = self.a_of(it, st)
        sh = None
        return I.arr(st, n, a, shape=sh)

    def x_vstack(self, p, A, kw, n, st):
        out = self._concat(A, kw, n, st)
        it = self.I.exact_items(A[0], st, n)
        if it and all(x.shape is not None and len(x.shape) == 2 for x in it):
            d = ()
            for x in it:
                d = sym_add(d, x.shape[0])
            out = out.with_(shape=(d, it[0].shape[1]))
        return out

    def x_hstack(self, p, A, kw, n, st):
        out = self._concat(A, kw, n, st)
        it = self.I.exact_items(A[0], st, n)
        if it and all(x.shape is not None and len(x.shape) == 2 for x in it):
            d = ()
            for x in it:
                d = sym_add(d, x.shape[1])
            out = out.with_(shape=(it[0].shape[0], d))
        return out

    def x_concatenate(self, p, A, kw, n, st):
        ax = self.axis_of(A, kw)
        if ax == 1:
            return self.x_hstack(p, A, kw, n, st)
        if ax in (None, 0):
            return self.x_vstack(p, A, kw, n, st)
        return self._concat(A, kw, n, st)

    x_column_stack = x_concatenate
    x_stack = x_concatenate
    x_block = x_concatenate
    x_row_stack = x_vstack

    def x_append(self, p, A, kw, n, st):
        return self.I.arr(st, n, self.a_of(A[0], st).join(self.a_of(A[1], st)))

    def x_insert(self, p, A, kw, n, st):
        return self.I.arr(st, n, self.a_of(A[0], st).join(self.a_of(A[2], st) if len(A) > 2 else TOPA))

    def x_meshgrid(self, p, A, kw, n, st):
        a = BOTA
        for v in A:
            a = a.join(self.a_of(v, st))
        return self.I.mkseq(st, n, "list", None, self.I.arr(st, n, a))

    def x_shape(self, p, A, kw, n, st):
        v = A[0]
        if v.shape is not None:
            return self.arr_attr(next(iter(v.refs)) if v.refs else None, None, "shape", st, n, v)
        return self.I.mkseq(st, n, "tuple", None, prim(Abs(None, 0.0, INF)))

    def x_size(self, p, A, kw, n, st):
        return prim(Abs(None, 0.0, INF))

    x_ndim = x_size

    def x_ndindex(self, p, A, kw, n, st):
        return self.I.mkseq(st, n, "list", None, self.I.mkseq(st, n, "tuple", None, prim(Abs(None, 0.0, INF)), extra="nd"))

    def x_finfo(self, p, A, kw, n, st):
        return ref(("ext", "numpy.finfo()"))

    # binary ---------------------------------------------------------------
    def dot_mixes(self, l, aa, r, bb, n):
        if l.shape == () or r.shape == ():
            return E0
        t = E0
        if l.refs and l.shape:
            t = self.mixes("dot", aa, l.shape, -1, n)
        if not t and r.refs and r.shape:
            t = self.mixes("dot", bb, r.shape, -2 if len(r.shape) >= 2 else -1, n)
        return t

    def x_dot(self, p, A, kw, n, st):
        if len(A) < 2:
            return self.I.arr(st, n, TOPA)
        l, r = A[0], A[1]
        aa, bb = self.a_of(l, st), self.a_of(r, st)
        a = self.abs_bin("MatMult", aa, bb, n)
        sh = self.dot_shape(l, r, st)
        if p.split(".")[-1] in ("dot", "matmul"):
            a = a.with_(tags=a.tags | self.dot_mixes(l, aa, r, bb, n))
        if sh == () and (l.shape is not None):
            return prim(a)
        return self.I.arr(st, n, a, shape=sh)

    x_matmul = x_inner = x_kron = x_outer = x_dot

    def x_vdot(self, p, A, kw, n, st):
        return prim(self.abs_bin("MatMult", self.a_of(A[0], st), self.a_of(A[1], st), n))

    def x_einsum(self, p, A, kw, n, st):
        ops = A[1:]
        a = None
        for v in ops:
            x = self.a_of(v, st)
            a = x if a is None else self.abs_bin("MatMult", a, x, n)
        if a is None:
            return UNK
        spec = A[0].single_const()
        shape = None
        if isinstance(spec, str):
            sp = spec.replace(" ", "")
            ins, _, out = sp.partition("->")
            ins = ins.split(",")
            dims = {}
            for s, v in zip(ins, ops):
                if v.shape is not None and len(v.shape) == len(s):
                    for c, d in zip(s, v.shape):
                        dims.setdefault(c, d)
            if "->" in sp:
                shape = tuple(dims.get(c) for c in out)
            # the sum of squares of one operand
            if len(ops) == 2 and ins[0] == ins[1] and ops[0].refs == ops[1].refs and len(ops[0].refs) == 1:
                a = Abs(a.unit, 0.0, INF, a.tags)
            if len(ops) == 2 and sp.endswith("->"):
                return prim(a)
        return self.I.arr(st, n, a, shape=shape)

    def _bin(op):
        def f(self, p, A, kw, n, st):
            return self.binop(op, A[0], A[1], st, n) if len(A) > 1 else UNK

        return f

    x_add = _bin("Add")
    x_subtract = _bin("Sub")
    x_multiply = _bin("Mult")
    x_divide = _bin("Div")
    x_true_divide = _bin("Div")
    x_power = _bin("Pow")
    x_pow = _bin("Pow")
    x_float_power = _bin("Pow")

    def x_maximum(self, p, A, kw, n, st):
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        r = Abs(u_nonlin_pair(a.unit, b.unit), max(a.lo, b.lo), max(a.hi, b.hi), a.tags | b.tags, p_clamped(p_join(a.pos, b.pos)))
        if A[0].refs or A[1].refs or A[0].unk or A[1].unk:
            return self.I.arr(st, n, r, shape=self.bshape(A[0], A[1], st))
        return prim(r)

    def x_minimum(self, p, A, kw, n, st):
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        r = Abs(u_nonlin_pair(a.unit, b.unit), min(a.lo, b.lo), min(a.hi, b.hi), a.tags | b.tags, p_clamped(p_join(a.pos, b.pos)))
        if A[0].refs or A[1].refs or A[0].unk or A[1].unk:
            return self.I.arr(st, n, r, shape=self.bshape(A[0], A[1], st))
        return prim(r)

    x_fmax = x_maximum
    x_fmin = x_minimum

    def x_clip(self, p, A, kw, n, st):
        v = A[0]
        a = self.a_of(v, st)
        lo = A[1] if len(A) > 1 else kw.get("a_min", NONE)
        hi = A[2] if len(A) > 2 else kw.get("a_max", NONE)
        l, h = a.lo, a.hi
        u = a.unit
        p = p_join(self.a_of(lo, st).pos, self.a_of(hi, st).pos)
        if not lo.only_none():
            x = self.a_of(lo, st)
            l = max(l, x.lo)
            h = max(h, x.lo)
            u = u_nonlin_pair(u, x.unit)
        if not hi.only_none():
            x = self.a_of(hi, st)
            h = min(h, x.hi)
            l = min(l, x.hi)
            u = u_nonlin_pair(u, x.unit)
        return self.result(v, st, n, Abs(u, l, h, a.tags, p), v.shape)

    def x_where(self, p, A, kw, n, st):
        if len(A) == 1:
            return self.I.mkseq(st, n, "tuple", None, self.I.arr(st, n, Abs(None, 0.0, INF, self.a_of(A[0], st).tags)))
        a = self.a_of(A[1], st).join(self.a_of(A[2], st))
        # where(v > c, v, c) style clamps
        t = self.I.compare_of(n.args[0]) if isinstance(n, ast.Call) and n.args else None
        if t is not None and len(n.args) == 3:
            l, op, r = t
            x, y = _dump(n.args[1]), _dump(n.args[2])
            if _dump(r) in (x, y) and _dump(l) not in (x, y):
                l, r, op = r, l, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
            cst = self.a_of(self.I.ev(r, st), st)
            l = _dump(l)
            if op in ("Gt", "GtE") and x == l:
                ax = self.a_of(A[1], st)
                a = ax.with_(lo=max(ax.lo, cst.lo)).join(self.a_of(A[2], st))
            elif op in ("Lt", "LtE") and y == l:
                ay = self.a_of(A[2], st)
                a = ay.with_(lo=max(ay.lo, cst.lo)).join(self.a_of(A[1], st))
        return self.I.arr(st, n, Abs(a.unit, a.lo, a.hi, a.tags | self.a_of(A[0], st).tags, p_clamped(a.pos)), shape=self.bshape(A[1], A[2], st))

    # linear algebra ---------------------------------------------------------
    def x_inv(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        return self.I.arr(st, n, Abs(u_pow(a.unit, -1), -INF, INF, a.tags), shape=A[0].shape)

    x_pinv = x_inv

    def x_solve(self, p, A, kw, n, st):
        I = self.I
        for k in ("overwrite_b", "overwrite_a"):
            if k in kw and kw[k].single_const() is not False:
                v = A[1] if k.endswith("b") else A[0]
                for r in self.I.alts(v.refs):
                    o = I.obj(st, r)
                    if o is not None and o.kind == "arr":
                        I.set_arr(st, r, Abs(UT, tags=o.a.tags), n, k, strong=False)
        ai = 0
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        u = u_mul(b.unit, a.unit, inv=True)
        return I.arr(st, n, Abs(u, -INF, INF, a.tags | b.tags), shape=A[1].shape)

    x_solve_triangular = x_lu_solve = x_cho_solve = x_solve

    def x_lstsq(self, p, A, kw, n, st):
        v = self.x_solve(p, A, {}, n, st)
        a, b = A[0].shape, A[1].shape
        v = v.with_(shape=(a[1],) + b[1:] if a is not None and b is not None and len(a) == 2 and b else None)
        return self.I.mkseq(st, n, "tuple", [v, UNK, UNK, UNK])

    def x_cholesky(self, p, A, kw, n, st):
        I = self.I
        a = self.a_of(A[0], st)
        if "overwrite_a" in kw and kw["overwrite_a"].single_const() is not False:
            for r in self.I.alts(A[0].refs):
                o = I.obj(st, r)
                if o is not None and o.kind == "arr":
                    I.set_arr(st, r, o.a, n, "overwrite_a")
        return I.arr(st, n, Abs(u_pow(a.unit, 0.5), -INF, INF, a.tags), shape=A[0].shape)

    def x_lu_solve(self, p, A, kw, n, st):
        """the factors carry the unit of the matrix"""
        f, b = A[0], self.a_of(A[1], st)
        u = None
        for r in f.refs:
            o = self.I.obj(st, r)
            if o is not None and o.kind == "tuple" and o.items:
                u = u_join(u, self.a_of(o.items[0], st).unit)
            else:
                u = UT
        return self.I.arr(st, n, Abs(u_mul(b.unit, u, inv=True) if f.refs else UT, -INF, INF, self.a_of(f, st).tags | b.tags), shape=A[1].shape)

    def x_lu_factor(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        return self.I.mkseq(st, n, "tuple", [self.I.arr(st, n, a), UNK])

    def x_qr(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        sh = A[0].shape
        eco = sh is not None and len(sh) == 2 and (kw["mode"] if "mode" in kw else (A[1] if len(A) > 1 else NONE)).single_const() in ("economic", "reduced")
        q = self.I.arr(st, n, Abs(None if a.unit is None else DIMLESS, -INF, INF, a.tags), extra="q", shape=sh if eco else None)
        r = self.I.arr(st, n, Abs(u_nonlin(a.unit), -INF, INF, a.tags), extra="r", shape=(sh[1], sh[1]) if eco else None)
        return self.I.mkseq(st, n, "tuple", [q, r])

    def x_svd(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        s = self.I.arr(st, n, Abs(u_nonlin(a.unit), 0.0, INF, a.tags), extra="s")
        q = self.I.arr(st, n, Abs(DIMLESS, -INF, INF, a.tags), extra="u")
        if "compute_uv" in kw and kw["compute_uv"].single_const() is False:
            return s
        return self.I.mkseq(st, n, "tuple", [q, s, q])

    def x_trace(self, p, A, kw, n, st):
        return prim(self.a_reduce("sum", self.a_of(A[0], st), n))

    def x_det(self, p, A, kw, n, st):
        return prim(Abs(UT, tags=self.a_of(A[0], st).tags))

    x_cond = x_det

    def x_norm(self, p, A, kw, n, st):
        if p.endswith("stats.norm"):
            return ref(("ext", "scipy.stats.norm"))
        return self.reduce("norm", A, kw, n, st)

    def x_cdf(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        self.pure_number(a, "cdf", n)
        return self.result(A[0], st, n, Abs(u_transc(a.unit), 0.0, 1.0, a.tags), A[0].shape)

    def x_pdf(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        self.pure_number(a, "pdf", n)
        return self.result(A[0], st, n, Abs(u_transc(a.unit), 0.0, INF, a.tags), A[0].shape)

    def x_rvs(self, p, A, kw, n, st):
        rs = kw.get("random_state")
        src = "global" if rs is None or rs.only_none() else ("seeded" if None not in rs.consts else "maybe")
        self.I.event("rng", (src, p), n)
        return self.I.arr(st, n, Abs(None, tags=frozenset([("rng", src)])))

    def x_cdist(self, p, A, kw, n, st):
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        r = self.abs_bin("Sub", a, b, n)
        sh = None
        if A[0].shape and A[1].shape:
            sh = (A[0].shape[0], A[1].shape[0])
        return self.I.arr(st, n, Abs(u_nonlin(r.unit), 0.0, INF, r.tags), shape=sh)

    def x_manhattan_distances(self, p, A, kw, n, st):
        A = list(A)
        if len(A) < 2:
            A.append(kw.get("Y", A[0]))
        a, b = self.a_of(A[0], st), self.a_of(A[1], st)
        r = self.abs_bin("Sub", a, b, n)
        return self.I.arr(st, n, Abs(u_nonlin(r.unit), 0.0, INF, r.tags))

    def x_pdist(self, p, A, kw, n, st):
        a = self.a_of(A[0], st)
        self.I.event("reduce", ("pdist", None, a.tags, A[0].shape), n)
        return self.I.arr(st, n, Abs(u_nonlin(u_diffscale(a.unit)), 0.0, INF, a.tags))

    def x_check_pairwise_arrays(self, p, A, kw, n, st):
        vs = [self.view("asarray", [v], {}, n, st) for v in A[:2]]
        return self.I.mkseq(st, n, "tuple", vs)

    def x_check_array(self, p, A, kw, n, st):
        return self.view("asarray", A, {}, n, st)

    def x_apply_along_axis(self, p, A, kw, n, st):
        I = self.I
        row = V(refs=A[2].refs, a=A[2].a, unk=A[2].unk)
        k = A[1].single_const()
        if A[2].shape is not None and isinstance(k, int) and -len(A[2].shape) <= k < len(A[2].shape):
            row = row.with_(shape=(A[2].shape[k],))
        v = I.call(A[0], [row] + list(A[3:]), {}, n, st)
        ax = A[1].single_const()
        sh = None
        if A[2].shape is not None and isinstance(ax, int) and -len(A[2].shape) <= ax < len(A[2].shape):
            inner = self.shape_of(v, st)
            rest = list(A[2].shape)
            rest.pop(ax)
            sh = tuple(rest) if inner == () else None
        return I.arr(st, n, self.a_of(v, st), shape=sh)

    def x_vectorize(self, p, A, kw, n, st):
        return A[0]

    def x_add_at(self, p, A, kw, n, st):
        return NONE

    def x_at(self, p, A, kw, n, st):
        I = self.I
        for r in self.I.alts(A[0].refs):
            o = I.obj(st, r)
            if o is not None and o.kind == "arr":
                I.set_arr(st, r, self.abs_bin("Add", o.a, self.a_of(A[2], st) if len(A) > 2 else TOPA, n), n, "ufunc.at", strong=False)
        return NONE

    def x_put(self, p, A, kw, n, st):
        I = self.I
        for r in self.I.alts(A[0].refs):
            o = I.obj(st, r)
            if o is not None and o.kind == "arr":
                I.set_arr(st, r, self.a_of(A[-1], st), n, p.split(".")[-1], strong=False)
        return NONE

    x_copyto = x_place = x_putmask = x_put

    def x_fill_diagonal(self, p, A, kw, n, st):
        return self.x_put(p, A, kw, n, st)

    def x_lhs(self, p, A, kw, n, st):
        I = self.I
        rs = kw.get("random_state")
        if rs is None or rs.only_none():
            I.event("rng", ("global", "lhs"), n)
            src = "global"
        else:
            src = "maybe" if None in rs.consts else "seeded"
            for r in self.I.alts(rs.refs):
                if r[0] == "rng" and r[1] != "seeded":
                    src = r[1]
            I.event("rng", (src, "lhs"), n)
        s = kw.get("samples", A[1] if len(A) > 1 else PRIM)
        return I.arr(st, n, Abs(None, 0.0, 1.0, frozenset([("rng", src)])), shape=(s.dim, A[0].dim))

    def kept_within(self, A, kw, st):
        """where the minimiser's points lie with respect to the limits"""
        b = kw.get("bounds", A[7] if len(A) > 7 else NONE)
        m = kw.get("method", A[3] if len(A) > 3 else NONE)
        if "constraints" in kw or len(A) > 8:
            return None
        ms = {c.lower() if isinstance(c, str) else c for c in m.consts}
        if None in b.consts or (ms and not m.prim and not ms & BOUNDED):
            return FREE
        p = self.a_of(b, st).pos
        for q in b.refs:
            o = self.I.obj(st, q)
            if o is not None and o.kind in ("list", "tuple"):
                p = p or self.a_of(o.all(), st).pos
                for z in o.all().refs:
                    w = self.I.obj(st, z)
                    if w is not None and w.kind in ("list", "tuple"):
                        p = p or self.a_of(w.all(), st).pos
        return None if p is None or p_inside(p) is None else P_IN if p_inside(p) else FREE

    def x_minimize(self, p, A, kw, n, st):
        from absint import Dead

        I = self.I
        f = A[0]
        x0 = A[1] if len(A) > 1 else kw.get("x0", UNK)
        ax = self.a_of(x0, st)
        x = I.arr(st, n, Abs(ax.unit, -INF, INF, ax.tags, self.kept_within(A, kw, st)), extra="minx", shape=x0.shape if x0.shape and len(x0.shape) == 1 else None)
        fun = BOT
        for cb in [f] + [kw[k] for k in ("jac", "callback") if k in kw]:
            s = st.copy()
            try:
                extra = []
                if "args" in kw:
                    it = I.exact_items(kw["args"], s, n)
                    extra = it if it is not None else []
                v = I.call(cb, [x] + extra, {}, n, s)
                if cb is f:
                    fun = fun.join(v)
                st.heap = st.join(s).heap
            except Dead:
                pass
        cons = kw.get("constraints")
        if cons is not None:
            for c in I.iter_elem(cons, st, n).refs | cons.refs:
                o = I.obj(st, c)
                if o is not None and o.kind == "dict" and "fun" in o.keys:
                    s = st.copy()
                    try:
                        I.call(o.keys["fun"], [x], {}, n, s)
                        st.heap = st.join(s).heap
                    except Dead:
                        pass
        af = self.a_of(fun, st) if not fun.is_bot() else TOPA
        res = I.mkdict(st, n, {"x": x, "fun": prim(af).join(I.arr(st, n, af, extra="minf")), "success": BOOL, "nfev": PRIM, "message": PRIM}, extra="minres")
        return res

    # ------------------------------------------------------------------ array methods
    def arr_method(self, r, name, args, kw, n, st, shape=None):
        I = self.I
        A = [a[1] if isinstance(a, tuple) else a for a in args]
        o = I.obj(st, r)
        v = V(refs=frozenset([r]), shape=shape)
        if o is None:
            return UNK
        if name in ("sort", "fill", "resize", "put", "partition", "itemset", "setflags", "byteswap"):
            a = o.a
            if name == "fill" and A:
                a = self.a_of(A[0], st)
            elif name in ("put", "itemset") and A:
                a = o.a.join(self.a_of(A[-1], st))
            I.set_arr(st, r, a, n, "." + name + "()")
            return NONE
        out = kw.get("out")
        if out is not None and not out.only_none():
            w = self.arr_method(r, name, args, {k: w for k, w in kw.items() if k != "out"}, n, st, shape)
            for q in out.refs:
                I.set_arr(st, q, I.at(st, w), n, "out=", strong=len(out.refs) == 1 and not out.unk)
            return out
        if name in ("copy", "__copy__", "__deepcopy__"):
            return I.arr(st, n, o.a, shape=shape, elem=o.elem)
        if name == "astype":
            cp = kw.get("copy")
            if cp is not None and cp.single_const() is not True:
                return self.view("asarray", [v], {}, n, st)
            return I.arr(st, n, o.a, shape=shape, elem=o.elem)
        if name in ("reshape", "ravel", "transpose", "squeeze", "swapaxes", "view"):
            return self.view(name, [v] + A, kw, n, st)
        if name == "flatten":
            return I.arr(st, n, o.a, shape=self.view("ravel", [v], {}, n, st).shape, elem=o.elem)
        if name == "dot":
            return self.x_dot("dot", [v] + A, kw, n, st)
        if name in ("tolist",):
            return I.mkseq(st, n, "list", None, prim(o.a).join(o.elem) if o.elem is not None else prim(o.a))
        if name == "item":
            return prim(o.a)
        if name == "clip":
            return self.x_clip("clip", [v] + A, {"a_min": kw.get("min", NONE), "a_max": kw.get("max", NONE)} if kw else {}, n, st)
        if name in REDUCE:
            return self.reduce(name, [v] + A, kw, n, st)
        if name in ARGRED:
            I.event("reduce", (name, self.axis_of([v] + A, kw), o.a.tags, shape), n)
            return self.argred(name, [v] + A, kw, n, st)
        if name in ("all", "any"):
            return self.generic(name, [v] + A, kw, n, st)
        if name in ("round", "conj", "conjugate", "cumsum", "repeat", "take", "diagonal", "todense", "toarray", "tocsc", "tocsr", "tocoo"):
            return I.arr(st, n, o.a, shape=shape if name in ("round", "conj", "conjugate") else None)
        I.unresolved["ndarray." + name] = I.unresolved.get("ndarray." + name, 0) + 1
        return UNK

    # ------------------------------------------------------------------ containers
    def container_method(self, r, name, args, kw, n, st):
        from absint import Dct, Seq

        I = self.I
        A = [a[1] if isinstance(a, tuple) else a for a in args]
        o = I.obj(st, r)
        if o is None:
            return UNK
        if name in MUT_LIST:
            I.mutated(st, r, n, "." + name + "()")
        ph = frozenset([I.phase])
        if o.kind == "dict":
            if name in ("items", "keys", "values"):
                if o.rest.is_bot() and o.must >= set(o.keys):
                    its = []
                    for k, v in o.keys.items():
                        if name == "keys":
                            its.append(const(k))
                        elif name == "values":
                            its.append(v)
                        else:
                            its.append(I.mkseq(st, n, "tuple", [const(k), v], extra=("it", str(type(k)), str(k))))
                    return I.mkseq(st, n, "list", its)
                kv = PRIM if not o.rest.is_bot() else BOT
                for k in o.keys:
                    kv = kv.join(const(k))
                vv = o.all()
                e = kv if name == "keys" else (vv if name == "values" else I.mkseq(st, n, "tuple", [kv, vv], extra="it"))
                return I.mkseq(st, n, "list", None, e)
            if name == "get":
                d = A[1] if len(A) > 1 else NONE
                out = BOT
                if A[0].all_consts():
                    for c in A[0].consts:
                        if c in o.keys:
                            out = out.join(o.keys[c])
                            if c not in o.must or I.meta[r[1]]["origin"] is not None:
                                out = out.join(d)
                        else:
                            out = out.join(o.rest).join(d)
                else:
                    out = o.all().join(d)
                return out
            if name in ("pop",):
                c = A[0].single_const() if A else NOCONST
                out = o.all() if c is NOCONST else o.keys.get(c, o.rest)
                if len(A) > 1:
                    out = out.join(A[1])
                if c is not NOCONST:
                    ks = {k: v for k, v in o.keys.items() if k != c}
                    st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep | ph, o.must - {c})
                return out if not out.is_bot() else UNK
            if name == "update":
                ks, rest, must = dict(o.keys), o.rest, o.must
                if A:
                    for q in A[0].refs:
                        od = I.obj(st, q)
                        if od is not None and od.kind == "dict":
                            ks.update(od.keys)
                            if len(A[0].refs) == 1:
                                must = must | od.must
                            rest = rest.join(od.rest)
                        else:
                            rest = rest.join(UNK)
                for k, v in kw.items():
                    ks[k] = v
                    must = must | {k}
                st.heap[r[1]] = Dct(ks, rest, o.factory, o.ep | ph, must)
                return NONE
            if name == "setdefault":
                c = A[0].single_const()
                if c is not NOCONST:
                    ks = dict(o.keys)
                    ks[c] = ks[c].join(A[1] if len(A) > 1 else NONE) if c in ks else (A[1] if len(A) > 1 else NONE)
                    st.heap[r[1]] = Dct(ks, o.rest, o.factory, o.ep | ph, o.must | {c})
                    return ks[c]
                return UNK
            if name == "copy":
                return V(refs=frozenset([I.new(st, Dct(o.keys, o.rest, o.factory, E0, o.must), n, "dcopy")]))
            if name == "clear":
                st.heap[r[1]] = Dct({}, BOT, o.factory, o.ep | ph)
                return NONE
            if name in ("x", "fun", "success"):
                return o.keys.get(name, UNK)
            return UNK
        if name == "append" or name == "add":
            x = A[0] if A else UNK
            if o.items is not None and len(o.items) < 24 and not self.in_loop():
                st.heap[r[1]] = Seq(o.kind, o.items + (x,), BOT, o.ep | ph)
            else:
                st.heap[r[1]] = Seq(o.kind, None, o.all().join(x), o.ep | ph)
            return NONE
        if name == "insert":
            st.heap[r[1]] = Seq(o.kind, None, o.all().join(A[-1]), o.ep | ph)
            return NONE
        if name == "extend":
            a, b = o.items, I.exact_items(A[0], st, n)
            if a is not None and b is not None and len(a) + len(b) < 40 and not self.in_loop():
                st.heap[r[1]] = Seq(o.kind, a + tuple(b), BOT, o.ep | ph)
            else:
                st.heap[r[1]] = Seq(o.kind, None, o.all().join(I.iter_elem(A[0], st, n)), o.ep | ph)
            return NONE
        if name == "pop":
            e = o.all()
            if o.items:
                c = A[0].single_const() if A else -1
                if isinstance(c, int) and -len(o.items) <= c < len(o.items):
                    e = o.items[c]
                    it = list(o.items)
                    it.pop(c)
                    st.heap[r[1]] = Seq(o.kind, tuple(it), BOT, o.ep | ph)
                    return e
            st.heap[r[1]] = Seq(o.kind, None, o.all(), o.ep | ph)
            return e if not e.is_bot() else UNK
        if name in ("remove", "clear", "sort", "reverse", "discard", "update"):
            st.heap[r[1]] = Seq(o.kind, None, o.all(), o.ep | ph)
            return NONE
        if name in ("index", "count"):
            return prim(Abs(None, 0.0, INF))
        if name == "copy":
            return V(refs=frozenset([I.new(st, Seq(o.kind, o.items, o.elem), n, "lcopy")]))
        return UNK

    def in_loop(self):
        return bool(self.I.ctl.loops)

    def prim_method(self, name, args, kw, n, st):
        A = [a[1] if isinstance(a, tuple) else a for a in args]
        if name in ("sum", "mean", "min", "max", "item", "real", "copy", "squeeze", "flatten", "reshape", "ravel", "astype"):
            return PRIM
        if name in ("split",):
            return self.I.mkseq(st, n, "list", None, PRIM)
        return PRIM

    def unknown_method(self, name, args, kw, n, st, f):
        I = self.I
        A = [a[1] if isinstance(a, tuple) else a for a in args]
        tags = f.a.tags
        for v in A + list(kw.values()):
            tags = tags | I.at(st, v).tags
        if name == "rvs":
            rs = kw.get("random_state")
            if rs is None or rs.only_none():
                I.event("rng", ("global", "rvs"), n)
        h = I.hooks.get("unknown_method")
        if h:
            v = h(name, A, kw, n, st)
            if v is not None:
                return v
        return V(unk=True, a=Abs(UT, tags=tags))

    # ------------------------------------------------------------------ builtins
    def builtin(self, name, args, kw, n, st):
        I = self.I
        from absint import Dead

        A = [a[1] if isinstance(a, tuple) else a for a in args]
        if name == "object_init":
            return NONE
        if name == "len":
            v = A[0]
            it = I.exact_items(v, st, n)
            if it is not None:
                return const(len(it))
            d = v.shape[0] if v.shape else None
            return self.count(d, n)
        if name == "range":
            vals = [a.single_const() for a in A]
            if all(isinstance(v, int) for v in vals):
                rg = list(range(*vals))
                if len(rg) <= 6:
                    return I.mkseq(st, n, "list", [const(i) for i in rg])
            lo = A[0].a.lo if len(A) > 1 else 0.0
            hi = A[1].a.hi if len(A) > 1 else (A[0].a.hi if A else INF)
            if len(A) > 2 and A[2].a.lo < 0:
                lo, hi = min(A[1].a.lo, A[0].a.lo), A[0].a.hi
            t = E0
            for v in A:
                t = t | v.a.tags
            dim = A[0].dim if len(A) == 1 else (sym_add(A[1].dim, A[0].dim, -1) if len(A) == 2 else None)
            if dim is not None and has_point_dim(dim):
                t = frozenset(x for x in t if not (isinstance(x, tuple) and x[0] == "npts"))
            if len(A) == 1 and dim == POINTS:
                t = t | {"ix"}  # the number of a point
            return I.mkseq(st, n, "list", None, prim(Abs(None, lo, hi, t))).with_(shape=None if dim is None else (dim,))
        if name in ("int", "float", "complex", "round", "bool"):
            if not A:
                return const(0)
            v = A[0]
            a = I.at(st, v)
            if v.all_consts():
                try:
                    f = {"int": int, "float": float, "bool": bool}.get(name)
                    if f:
                        cs = frozenset(f(c) for c in v.consts)
                        return V(consts=cs, a=join_abs(abs_const(c) for c in cs), dim=v.dim)
                except (TypeError, ValueError):
                    pass
            if name == "bool":
                return V(consts=frozenset(I.truth(v, st)), a=Abs(None, 0.0, 1.0, a.tags))
            return prim(a, dim=v.dim if name == "int" else None)
        if name in ("str", "repr", "format"):
            if A and A[0].all_consts() and len(A[0].consts) <= 6 and name == "str":
                return V(consts=frozenset(str(c) for c in A[0].consts), a=LITA)
            return PRIM
        if name in ("list", "tuple", "set", "sorted", "reversed", "frozenset"):
            kind = {"tuple": "tuple", "set": "set", "frozenset": "set"}.get(name, "list")
            if not A:
                return I.mkseq(st, n, kind, [])
            it = I.exact_items(A[0], st, n)
            if it is not None and name in ("list", "tuple"):
                return I.mkseq(st, n, kind, it)
            if it is not None and name == "reversed":
                return I.mkseq(st, n, kind, list(reversed(it)))
            return I.mkseq(st, n, kind, None, I.iter_elem(A[0], st, n))
        if name == "dict":
            keys, rest = dict((k, v) for k, v in kw.items() if k != "**"), kw.get("**", BOT)
            if A:
                for r in self.I.alts(A[0].refs):
                    o = I.obj(st, r)
                    if o is not None and o.kind == "dict":
                        for k, v in o.keys.items():
                            keys.setdefault(k, v)
                        rest = rest.join(o.rest)
                    else:
                        rest = rest.join(UNK)
                if A[0].unk:
                    rest = rest.join(UNK)
            return I.mkdict(st, n, keys, rest)
        if name in ("min", "max"):
            vs = A if len(A) > 1 else [I.iter_elem(A[0], st, n)] if A else []
            if len(A) == 1:
                I.event("reduce", (name, None, I.at(st, A[0]).tags, A[0].shape), n)
            aa = [I.at(st, v) for v in vs]
            if not aa:
                return UNK
            u = aa[0].unit
            for x in aa[1:]:
                u = u_nonlin_pair(u, x.unit)
            t = E0
            for x in aa:
                t = t | x.tags
            if name == "max":
                lo, hi = max(x.lo for x in aa), max(x.hi for x in aa)
            else:
                lo, hi = min(x.lo for x in aa), min(x.hi for x in aa)
            return prim(Abs(u, lo, hi, t))
        if name == "abs":
            return self.elem1("abs", A[0], st, n)
        if name == "sum":
            it = I.iter_elem(A[0], st, n)
            a = I.at(st, it)
            I.event("reduce", ("sum", None, a.tags, A[0].shape), n)
            return self.result(it, st, n, self.a_reduce("sum", a, n))
        if name == "pow":
            return self.binop("Pow", A[0], A[1], st, n)
        if name == "enumerate":
            it = I.exact_items(A[0], st, n)
            if it is not None:
                return I.mkseq(st, n, "list", [I.mkseq(st, n, "tuple", [const(i), x], extra=("en", i)) for i, x in enumerate(it)])
            e = I.iter_elem(A[0], st, n)
            if e.is_bot():
                return I.mkseq(st, n, "list", [])
            return I.mkseq(st, n, "list", None, I.mkseq(st, n, "tuple", [prim(Abs(None, 0.0, INF)), e], extra="en"))
        if name == "zip":
            its = [I.exact_items(v, st, n) for v in A]
            if all(x is not None for x in its):
                m = min(len(x) for x in its) if its else 0
                return I.mkseq(st, n, "list", [I.mkseq(st, n, "tuple", [x[i] for x in its], extra=("z", i)) for i in range(m)])
            return I.mkseq(st, n, "list", None, I.mkseq(st, n, "tuple", [I.iter_elem(v, st, n) for v in A], extra="z"))
        if name == "map":
            it = I.exact_items(A[1], st, n) if len(A) > 1 else None
            if it is not None and len(it) <= 12:
                return I.mkseq(st, n, "list", [I.call(A[0], [x], {}, n, st) for x in it])
            es = [I.iter_elem(v, st, n) for v in A[1:]]
            if any(e.is_bot() for e in es):
                return I.mkseq(st, n, "list", [])
            return I.mkseq(st, n, "list", None, I.call(A[0], es, {}, n, st))
        if name == "filter":
            return I.mkseq(st, n, "list", None, I.iter_elem(A[1], st, n))
        if name == "isinstance":
            if isinstance(n, ast.Call) and len(n.args) == 2:
                kinds = I.type_kinds(n.args[1], st)
                if kinds is not None:
                    res = set()
                    y = I.narrow_type(A[0], kinds, True, st)
                    z = I.narrow_type(A[0], kinds, False, st)
                    if not y.is_bot():
                        res.add(True)
                    if not z.is_bot():
                        res.add(False)
                    return V(consts=frozenset(res or {True, False}), a=Abs(None, 0.0, 1.0))
            return BOOL
        if name == "callable":
            v = A[0]
            res = set()
            for r in self.I.alts(v.refs):
                res.add(r[0] in ("func", "bound", "class", "user", "ext", "builtin", "umeth", "cmeth"))
            if v.consts or v.prim:
                res.add(False)
            if v.unk:
                res |= {True, False}
            return V(consts=frozenset(res or {True, False}), a=Abs(None, 0.0, 1.0))
        if name == "hasattr":
            a = A[1].single_const() if len(A) > 1 else NOCONST
            res = set()
            for r in self.I.alts(A[0].refs):
                o = I.obj(st, r)
                if o is not None and o.kind == "inst" and isinstance(a, str):
                    if o.cls.lookup(a) or o.cls.lookup_attr(a):
                        res.add(True)
                    elif a in o.attrs:
                        res |= {True}
                    else:
                        res.add(False)
                else:
                    res |= {True, False}
            return V(consts=frozenset(res or {True, False}), a=Abs(None, 0.0, 1.0))
        if name == "getattr":
            if A[1].all_consts() and len(A[1].consts) <= 12:
                out = BOT
                for a in A[1].consts:
                    if isinstance(a, str):
                        try:
                            out = out.join(I.get_attr(A[0], a, st, n))
                        except Dead:
                            pass
                if len(A) > 2:
                    out = out.join(A[2])
                return out if not out.is_bot() else UNK
            return UNK
        if name == "setattr":
            if A[1].all_consts():
                for a in A[1].consts:
                    I.set_attr(A[0], a, A[2], st, n)
            else:
                I.event("setattr_unknown", (), n)
            return NONE
        if name == "type":
            if len(A) != 1:
                return UNK
            out = BOT
            for r in self.I.alts(A[0].refs):
                o = I.obj(st, r)
                if o is not None and o.kind == "inst":
                    out = out.join(ref(("class", o.cls)))
                elif o is not None and o.kind == "arr":
                    out = out.join(ref(("ext", "numpy.ndarray")))
                elif o is not None and o.kind in ("list", "tuple", "dict", "set"):
                    out = out.join(ref(("builtin", o.kind)))
                else:
                    out = out.join(UNK)
            for c in A[0].consts:
                if c is not None:
                    out = out.join(ref(("builtin", type(c).__name__)))
                else:
                    out = out.join(ref(("ext", "NoneType")))
            if A[0].prim:
                for t in ("int", "float", "str", "bool"):
                    out = out.join(ref(("builtin", t)))
            if A[0].unk:
                out = out.join(UNK)
            return out if not out.is_bot() else UNK
        if name == "print":
            I.event("print", (), n)
            return NONE
        if name == "open":
            I.event("open", tuple(sorted(map(repr, A[1].consts))) if len(A) > 1 else ("'r'",), n)
            return V(refs=frozenset([("xobj", "file")]), unk=True, a=TOPA)
        if name in ("any", "all"):
            return BOOL
        if name in ("id", "hash"):
            I.event("nondet", name, n)
            return PRIM
        if name in ("iter", "next"):
            return I.iter_elem(A[0], st, n) if name == "next" and A else (A[0] if A else UNK)
        return UNK


def join_abs(xs):
    out = None
    for x in xs:
        out = x if out is None else out.join(x)
    return out or LITA


def u_nonlin_pair(a, b):
    """max/min of two quantities: literals adapt"""
    if a is None or b is None:
        o = b if a is None else a
        return u_nonlin(o) if o is not None else None
    if is_conf(a):
        return a
    if is_conf(b):
        return b
    if a == UT or b == UT:
        return UT
    if a[:2] != b[:2]:
        return UT
    return a if a == b else u_nonlin((a[0], a[1], a[2] if a[2] == b[2] else "?", a[3] if a[3] == b[3] else "?"))
