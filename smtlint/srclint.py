"""Rules over the syntax tree of the whole library: bound names, ends of functions, calls, discarded results, reported errors, options."""
import ast
import builtins

import flow
from index import ClassInfo, FuncInfo, ModuleInfo
from rules import Finding, src_of

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__"}


def fnd(rule, f, node, construct, msg):
    return Finding(rule, f.qual, construct, f.module.rel, getattr(node, "lineno", 0), msg)


def functions(sx):
    return [f for f in sx.ix.all_functions() if isinstance(f.node, ast.FunctionDef)]


def own(node):
    """the nodes of a function, without those of functions and classes defined in it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


# ------------------------------------------------------------------------------------- C24
def none_expected(sx):
    """names of functions some caller of which asks whether the result is None, or whether there is any"""
    if getattr(sx, "_none_ok", None) is not None:
        return sx._none_ok
    out = set()
    for f in functions(sx):
        by = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
                nm = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else getattr(n.value.func, "id", None)
                by.setdefault(ast.unparse(n.targets[0]), set()).add(nm)
        for n in own(f.node):
            asked = []
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                asked = [n.left]
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = n.test.operand if isinstance(n.test, ast.UnaryOp) else n.test
                asked = [t]
            for a in asked:
                if isinstance(a, ast.NamedExpr):
                    a = a.value
                if isinstance(a, ast.Call):
                    out.add(a.func.attr if isinstance(a.func, ast.Attribute) else getattr(a.func, "id", None))
                elif isinstance(a, (ast.Name, ast.Attribute)):
                    out |= by.get(ast.unparse(a), set())
    sx._none_ok = out
    return out


def bound_names(sx):
    """every local name is bound, on every path, before it is used; a function that returns values returns one on every path"""
    vals = flow.Values(sx.ix)
    for f in functions(sx):
        F = flow.Flow(f, vals.of(f)).run()
        sx.n("uses of local names examined", F.uses)
        for n, nm in F.problems:
            yield fnd("C24-name-unbound", f, n, nm, "some path uses %r before it is given a value" % nm)
        if f.name in none_expected(sx):
            continue  # None is one of its answers
        if flow.value_returns(f.node) and not flow.is_generator(f.node):
            sx.n("functions that must end with a result")
            if F.ends:
                yield fnd("C24-no-result", f, f.node, "end", "some path reaches the end without a result, others return one")
        if flow.value_returns(f.node):
            done = set()
            for r, alts in F.returns:
                if alts and r.value is None and f.name not in ("__init__",) and id(r) not in done:
                    done.add(id(r))
                    yield fnd("C24-no-result", f, r, "return", "some path returns nothing, others return a result")


def known_names(sx):
    """every global name exists"""
    for f in functions(sx):
        scope = set()
        g = f
        while g is not None:
            if isinstance(g.node, (ast.FunctionDef, ast.Lambda)):
                F = flow.Flow(g)
                scope |= F.locals | F.params
            g = g.outer
        m = f.module
        top = set(m.classes) | set(m.functions) | set(m.imports) | BUILTINS | top_names(m)

        def walk(n, extra):
            for c in ast.iter_child_nodes(n):
                e = extra
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    e = extra | {x.id for gen in c.generators for x in ast.walk(gen.target) if isinstance(x, ast.Name)}
                if isinstance(c, ast.Lambda):
                    e = extra | {a.arg for a in c.args.args + c.args.kwonlyargs + c.args.posonlyargs} | ({c.args.vararg.arg} if c.args.vararg else set()) | ({c.args.kwarg.arg} if c.args.kwarg else set())
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                    sx.n("names resolved")
                    if c.id not in e and c.id not in scope and c.id not in top:
                        yield c
                yield from walk(c, e)

        for c in walk(f.node, set()):
            yield fnd("C24-name-unknown", f, c, c.id, "the name %r is defined nowhere" % c.id)


def top_names(m):
    if not hasattr(m, "_tops"):
        out = set()
        for s in m.tree.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        m._tops = out
    return m._tops


def targets(ix, f, call):
    """the library functions a call can reach, where the program fixes them: [(function, bound)]"""
    fn = call.func
    if isinstance(fn, ast.Name):
        F = flow.Flow(f)
        if fn.id in F.locals or fn.id in F.params:
            return []
        r = ix.resolve_name(f.module, fn.id)
    elif isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name) and fn.value.id == "self" and f.cls is not None and f.params()[:1] == ["self"]:
            out = []
            for k in [f.cls] + ix.subclasses(f.cls):
                t = k.lookup(fn.attr)
                if t is not None and not t.is_property and t not in out:
                    out.append(t)
            return [(t, not t.is_static) for t in out]
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls is not None:
            mro = f.cls.mro()
            for k in mro[1:]:
                if fn.attr in k.methods:
                    return [(k.methods[fn.attr], not k.methods[fn.attr].is_static)]
            return []
        r = ix.resolve_expr(f.module, fn)
    else:
        return []
    if isinstance(r, FuncInfo):
        return [(r, False)]
    if isinstance(r, ClassInfo):
        t = r.lookup("__init__")
        return [(t, True)] if t is not None else []
    return []


def unsupported(c, feature):
    """the class says that it does not support the feature"""
    for k in c.mro():
        for m in k.methods.values():
            said = [n.value.value for n in ast.walk(m.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == feature and src_of(n.targets[0].value).endswith("supports")]
            if said:
                return said[-1] is False
    return False


def calls_fit(sx):
    """arguments of calls to library functions fit their signatures"""
    ix = sx.ix
    for f in functions(sx):
        for n in own(f.node):
            if not isinstance(n, ast.Call):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            for t, bound in targets(ix, f, n):
                if not isinstance(t.node, ast.FunctionDef) or t.decorators and not (t.is_static or t.is_classmethod or t.is_abstract or t.is_ctxmanager):
                    continue
                sx.n("calls compared with a signature")
                a = t.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                if bound or t.is_classmethod:
                    pos = pos[1:]
                names = set(pos) | {x.arg for x in a.kwonlyargs}
                need = pos[: len(pos) - len([d for d in a.defaults])] if a.defaults else list(pos)
                bad = None
                if len(n.args) > len(pos) and a.vararg is None:
                    bad = "takes %d arguments, %d are given" % (len(pos), len(n.args))
                given = set(pos[: len(n.args)])
                for k in n.keywords:
                    if k.arg not in names and a.kwarg is None:
                        bad = "has no parameter %r" % k.arg
                    if k.arg in given:
                        bad = "gets %r twice" % k.arg
                    given.add(k.arg)
                miss = [p for p in need if p not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
                if miss and bad is None:
                    bad = "needs %s" % ", ".join(miss)
                if bad and t.cls is not f.cls and f.name.startswith("_predict_") and t.cls in ix.subclasses(f.cls) and unsupported(t.cls, f.name[len("_predict_"):]):
                    continue  # that class never gets here: predict_x checks supports["x"]
                if bad:
                    yield fnd("C24-call-does-not-fit", f, n, "%s -> %s" % (src_of(n.func), t.qual.split(":")[1]), "%s %s" % (t.qual.split(":")[1], bad))


def self_attributes(sx):
    """every attribute of self that is read is set by some method of the class, its ancestors or its descendants"""
    ix = sx.ix
    sets, ext = {}, {}
    for c in ix.lib_classes():
        s = set(c.attrs) | set(c.methods)
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    s.add("*")
        sets[c] = s
        ext[c] = [b for b in c.ext_bases if b != "object"]
    outside = set()
    for f in functions(sx):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                outside.add(n.attr)
    for c in ix.lib_classes():
        fam = set(c.mro())
        for d in ix.subclasses(c):
            fam |= set(d.mro())
        have = outside.union(*[sets[k] for k in fam if k in sets])
        if any(ext.get(k) for k in fam) or "*" in have:
            continue
        for m in c.methods.values():
            if m.params()[:1] != ["self"]:
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                    sx.n("attributes of self resolved")
                    if n.attr not in have and not n.attr.startswith("__"):
                        yield fnd("C24-attribute-never-set", m, n, "self." + n.attr, "the attribute %r is set nowhere in the class, its ancestors or its descendants" % n.attr)


def option_uses(sx):
    """(function, node, name, own class or None) for every X.options["name"] in the library"""
    for f in functions(sx):
        for n in own(f.node):
            nm = flow.opt_name(n)
            if nm is None:
                continue
            b = n.value.value if isinstance(n.value, ast.Attribute) else None
            mine = b is None or isinstance(b, ast.Name) and b.id == "self"
            yield f, n, nm, f.cls if mine else None


def takes_declarations(cls):
    for k in cls.mro():
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and n.attr == "_declared_entries" and k.name != "OptionsDictionary":
                    return True
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "options" and not isinstance(n.value, ast.Call):
                    return True
    return False


def options_declared(sx):
    """every option that is read or written is declared by the class, an ancestor or a descendant"""
    ix = sx.ix
    opts = flow.option_values(ix)
    every = {nm for _, nm in opts}
    fam = {}
    for f, n, nm, cls in option_uses(sx):
        sx.n("uses of options resolved")
        if cls is None:
            ok = nm in every
        elif takes_declarations(cls):
            ok = nm in every  # has the declarations of another object
        else:
            if cls not in fam:
                ks = set(cls.mro())
                for d in ix.subclasses(cls):
                    ks |= set(d.mro())
                fam[cls] = {o for k, o in opts if any(k == x.name for x in ks)}
            ok = nm in fam[cls] if fam[cls] else nm in every
        if not ok:
            yield fnd("C06-option-unknown", f, n, src_of(n), "the option %r is declared nowhere in the class, its ancestors or its descendants" % nm)


# ------------------------------------------------------------------------------------- C06
def parameters_used(sx):
    """every parameter is used, unless the signature is shared with methods of other classes or the function is a callback"""
    by = {}
    fs = functions(sx)
    for f in fs:
        by.setdefault(f.name, set()).add(f.cls)
    for f in fs:
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if f.outer is not None or len(by[f.name]) > 1 or all(isinstance(s, (ast.Raise, ast.Pass)) for s in body):
            continue
        a = f.node.args
        loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}
        # a parameter that is overwritten before it is read is not used either
        for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            if p in ("self", "cls") or p.startswith("_"):
                continue
            sx.n("parameters examined")
            if p not in loads:
                yield fnd("C06-parameter-ignored", f, f.node, p, "the parameter %r is never used" % p)


# ------------------------------------------------------------------------------------- C18
PURE_METHODS = {"reshape", "copy", "astype", "transpose", "flatten", "ravel", "dot", "sum", "mean", "max", "min", "round", "clip", "tolist", "squeeze", "strip", "format", "lower", "upper", "join", "split", "toarray", "todense", "tocsc", "tocsr", "prod", "std", "var", "argmin", "argmax", "argsort", "repeat", "conj", "nonzero", "any", "all", "item", "items", "keys", "values", "replace", "startswith"}
NP_EFFECT = {"seed", "set_state", "fill_diagonal", "put", "copyto", "savetxt", "save", "savez", "set_printoptions", "seterr", "at", "place", "putmask", "put_along_axis", "shuffle", "filterwarnings", "simplefilter", "warn", "open", "dump", "test", "seterrcall", "show"}
PURE_EXT = ("numpy.", "scipy.", "math.", "itertools.", "copy.", "numbers.")
PURE_BUILTINS = {"sorted", "len", "abs", "min", "max", "sum", "range", "zip", "map", "filter", "enumerate", "list", "tuple", "dict", "set", "int", "float", "str", "isinstance", "reversed", "round", "any", "all", "type", "repr", "format", "bool", "complex"}


def is_exc(ix, m, e):
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Name):
        r = ix.resolve_name(m, e.id)
        if isinstance(r, ClassInfo):
            return any(b.split(".")[-1].endswith(("Error", "Exception", "Warning")) for c in r.mro() for b in c.ext_bases)
        b = getattr(builtins, e.id, None)
        return r is None and isinstance(b, type) and issubclass(b, BaseException)
    return False


def results_used(sx):
    """no statement computes something and drops it; no exception is built without being raised"""
    ix = sx.ix
    for f in functions(sx):
        for n in own(f.node):
            if isinstance(n, ast.Call) and is_exc(ix, f.module, n):
                sx.n("exceptions built")
            if not isinstance(n, ast.Expr):
                continue
            e = n.value
            sx.n("expression statements examined")
            if isinstance(e, ast.Constant) or isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
                continue
            if isinstance(e, ast.Call):
                if is_exc(ix, f.module, e):
                    yield fnd("C18-error-not-raised", f, n, src_of(e), "the error is built but not raised")
                    continue
                fn = e.func
                if isinstance(fn, ast.Name):
                    if ix.resolve_name(f.module, fn.id) is None and fn.id in PURE_BUILTINS:
                        if fn.id in ("list", "any", "all", "map", "sum", "float", "int") and e.args and any(isinstance(x, (ast.Call, ast.GeneratorExp)) for x in e.args):
                            continue  # may be evaluated for the effects of its argument
                        yield fnd("C18-result-dropped", f, n, src_of(e), "the result is computed and dropped")
                elif isinstance(fn, ast.Attribute):
                    r = ix.resolve_expr(f.module, fn)
                    if isinstance(r, tuple):
                        nm = r[1]
                        if nm.startswith(PURE_EXT) and nm.rsplit(".", 1)[-1] not in NP_EFFECT and not any(k.arg in ("out", "overwrite_a", "overwrite_b") for k in e.keywords) and "random" not in nm and "optimize" not in nm:
                            yield fnd("C18-result-dropped", f, n, src_of(e), "the result of %s is computed and dropped" % nm)
                        elif any(k.arg in ("overwrite_a", "overwrite_b") for k in e.keywords):
                            yield fnd("C18-result-dropped", f, n, src_of(e), "the result of %s is dropped: overwriting is only allowed, not promised" % nm)
                    elif not isinstance(r, (FuncInfo, ClassInfo, ModuleInfo)) and fn.attr in PURE_METHODS and not (isinstance(fn.value, ast.Name) and fn.value.id == "self"):
                        if not any(fn.attr in c.methods for c in ix.lib_classes()):
                            yield fnd("C18-result-dropped", f, n, src_of(e), "the result of .%s() is computed and dropped" % fn.attr)
                continue
            if any(isinstance(x, ast.Call) for x in ast.walk(e)) and not isinstance(e, (ast.BinOp, ast.Compare, ast.UnaryOp)):
                continue
            if isinstance(e, (ast.BinOp, ast.Compare, ast.UnaryOp)) and any(isinstance(x, ast.Name) for x in ast.walk(e)):
                yield fnd("C18-result-dropped", f, n, src_of(e), "the value is computed and dropped")


# where the library recovers from an error on purpose: (module, what is caught) -> number of handlers
RECOVERS = {
    ("smt.surrogate_models.krg_based", "LinAlgError,ValueError"): 1,  # an ill-conditioned correlation matrix scores -inf
    ("smt.surrogate_models.krg_based", "ValueError"): 1,  # a failed likelihood optimisation is retried, then raised
    ("smt.utils.neural_net.model", "*"): 1,  # printing of parameters
    ("smt.utils.neural_net.fwd_prop", "ValueError"): 1,  # shape of a single example
    ("smt.utils.caching", "*"): 1,  # no stored result: compute it
    ("smt.applications.ego", "ValueError"): 1,  # a failed start of the criterion optimisation is skipped
}


def caught(h):
    if h.type is None:
        return "*"
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return ",".join(sorted(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?") for t in ts))


def always_raises(body):
    return bool(body) and (isinstance(body[-1], ast.Raise) or isinstance(body[-1], ast.If) and always_raises(body[-1].body) and always_raises(body[-1].orelse))


def errors_reported(sx):
    """no error is absorbed: a handler raises, unless it is one of the declared recovery points; no finally block drops an error"""
    left = dict(RECOVERS)
    for f in functions(sx):
        for n in own(f.node):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and (c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")) == "suppress":
                        yield fnd("C18-error-swallowed", f, n, "suppress", "errors of this block are suppressed")
            if not isinstance(n, ast.Try):
                continue
            for h in n.handlers:
                if always_raises(h.body):
                    continue
                key = (f.module.name, caught(h))
                if left.get(key, 0) > 0:
                    left[key] -= 1
                    sx.n("declared recovery points")
                else:
                    yield fnd("C18-error-swallowed", f, h, "except " + key[1], "an error caught here does not reach the caller, and this is not one of the declared recovery points")
    for f in functions(sx):
        for n in own(f.node):
            if not isinstance(n, ast.Try):
                continue
            for h in n.handlers:
                sx.n("exception handlers examined")
                body = [s for s in h.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if all(isinstance(s, (ast.Pass, ast.Continue, ast.Break)) for s in body):
                    yield fnd("C18-error-swallowed", f, h, "except " + (src_of(h.type) if h.type is not None else ""), "the error is swallowed")
        for n in own(f.node):
            if isinstance(n, ast.Try):
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            sx.n("finally blocks that leave")
                            yield fnd("C18-error-swallowed", f, x, "finally", "leaving the finally block drops the error that is on its way")
