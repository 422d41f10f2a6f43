"""Rules over one analysed public life (a Run): each yields findings and counts the instances it decided."""
import ast
import hashlib

import live

from absint import *


class Finding:
    def __init__(self, rule, func, construct, file, line, msg, path=()):
        self.rule, self.func, self.construct, self.file, self.line, self.msg, self.path = rule, func, construct, file, line, msg, list(path)
        self.scenarios = []

    @property
    def key(self):
        return "%s|%s|%s" % (self.rule, self.func, self.construct)

    def text(self):
        return "%s:%s %s: %s [%s]" % (self.file, self.line, self.func, self.msg, self.rule)


def src_of(node):
    try:
        s = " ".join(ast.unparse(node).split())
    except Exception:
        s = type(node).__name__
    return s if len(s) <= 120 else s[:117] + "..."


def stmt_head(node):
    """the text of a node, without the body of a compound statement"""
    if isinstance(node, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
        return type(node).__name__.lower()
    return src_of(node)


def ev_finding(rule, e, msg, construct=None):
    fi = e.fi
    return Finding(rule, fi.qual if fi else "-", construct or stmt_head(e.node), fi.module.rel if fi else "-", getattr(e.node, "lineno", 0), msg, e.stack)


def lib(e):
    """the event is in the library (not in the driver, the stubs or the harness)"""
    return e.fi is not None and not e.fi.module.synthetic


PREDICT = ("predict", "predict2")
SERVICE = {"Printer"}  # bookkeeping of timings and of the print switch: no part of a model


def cls_finding(cx, rule, cls, construct, msg, path=()):
    """a finding about the whole class, placed at its definition"""
    try:
        c = cx.I.ix.cls(cls)
        f, l = c.module.rel, c.node.lineno
    except Exception:
        f, l = "-", 0
    return Finding(rule, cls, construct, f, l, msg, path)


class Ctx:
    def __init__(self, run):
        self.run, self.I, self.sc = run, run.I, run.scenario
        self.count = {}
        self.facts = []
        self.seen_funcs = set()

    def n(self, what, k=1):
        self.count[what] = self.count.get(what, 0) + k


# ------------------------------------------------------------------------------------- C01
def caller_data(cx):
    """in-place changes of objects that belong to the caller: training data, inputs, option values"""
    for e in cx.I.evs("mutate"):
        loc, origin, ph, how = e.data
        if not lib(e):
            continue
        cx.n("in-place updates examined")
        if origin and origin[0] in ("caller", "option"):
            what = "the array %r of the caller" % origin[1] if origin[0] == "caller" else "the value given for option %r" % origin[2]
            yield ev_finding("C01-caller-mutated", e, "modifies %s in place (%s)" % (what, how), stmt_head(e.node) + " <- " + ".".join(map(str, origin)))


# ------------------------------------------------------------------------------------- C02
def reach(I, v, st, follow_options=True):
    """objects reachable from a value: loc -> access path"""
    out = {}
    todo = [(v, "")]
    while todo:
        v, path = todo.pop()
        for r in v.refs:
            if r[0] != "o" or r[1] in out:
                continue
            out[r[1]] = path
            o = st.heap.get(r[1])
            if o is None:
                continue
            if o.kind == "inst":
                for k, w in o.attrs.items():
                    todo.append((w, path + "." + k))
            elif o.kind == "opts":
                if follow_options:
                    for k, w in o.vals.items():
                        todo.append((w, path + ".options[%r]" % k))
            elif o.kind == "dict":
                for k, w in o.keys.items():
                    todo.append((w, path + "[%r]" % (k,)))
                todo.append((o.rest, path + "[*]"))
            elif o.kind == "arr":
                if o.elem is not None:
                    todo.append((o.elem, path + "[*]"))
            elif o.kind in ("list", "tuple", "set"):
                todo.append((o.all(), path + "[*]"))
            elif o.kind == "frame":
                pass
    return out


def private_copies(cx):
    """after the data was given, no object of the caller is reachable from the model"""
    if cx.sc.meta.get("kind") not in ("surrogate", "moe", "mixint"):
        return
    for k in ("sdata", "s1", "s"):
        if k not in cx.run.kept:
            continue
        v, st = cx.run.kept[k]
        for loc, path in reach(cx.I, v, st, follow_options=False).items():
            m = cx.I.meta[loc]
            cx.n("objects reachable from a model")
            o = m["origin"]
            if o and o[0] == "caller" and o[1] in ("xt", "yt", "xlf", "ylf", "xdt", "dyt", "yt2", "x"):
                c = cx.sc.meta["cls"]
                yield cls_finding(cx, "C02-caller-array-kept", c, "s%s <- %s" % (path, o[1]), "the model keeps the array %r of the caller itself, as s%s" % (o[1], path))


# ------------------------------------------------------------------------------------- C03
def predict_pure(cx):
    """prediction phases write neither the model, its options, classes nor modules; results share no memory with the model"""
    I = cx.I
    ph_ok = cx.sc.meta.get("pure", PREDICT)
    for e in I.evs("mutate"):
        if not lib(e) or e.phase not in ph_ok:
            continue
        loc, origin, ph, how = e.data
        cx.n("writes examined in prediction phases")
        if origin and origin[0] in ("caller", "option"):
            continue  # C01
        if ph != e.phase and not (origin and origin[0] == "module") and not service_obj(cx, loc):
            yield ev_finding("C03-predict-mutates", e, "prediction modifies in place an object that existed before the call (%s)" % how)
    for e in I.evs("attr_write"):
        if not lib(e) or e.phase not in ph_ok:
            continue
        loc, attr, cls, ph = e.data
        cx.n("writes examined in prediction phases")
        if ph not in ph_ok and cls not in SERVICE:
            yield ev_finding("C03-predict-writes", e, "prediction assigns the attribute %r of a %s" % (attr, cls), "%s.%s" % (cls, attr))
    for e in I.evs("opt_write"):
        if lib(e) and e.phase in ph_ok and e.data[3] not in ph_ok:
            yield ev_finding("C03-predict-writes-option", e, "prediction sets the option %r" % (e.data[1],), "option %s" % (e.data[1],))
    for e in I.evs("class_write", "global_write"):
        if lib(e) and e.phase in ph_ok:
            yield ev_finding("C03-predict-writes-global", e, "prediction writes %s" % (e.data,), str(e.data))
    # aliasing of results
    for k, (rv, rst) in cx.run.kept.items():
        if not k.startswith("r_"):
            continue
        cx.n("prediction results examined")
        state = {}
        for root in ("s", "s0", "s1", "c"):
            if root in cx.run.kept:
                state.update(reach(I, cx.run.kept[root][0], rst))
        for loc, path in reach(I, rv, rst).items():
            m = I.meta[loc]
            o = m["origin"]
            if rst.heap.get(loc) is not None and rst.heap[loc].kind in ("inst", "frame"):
                continue
            if o and o[0] == "caller":
                if cx.sc.meta["kind"] in ("surrogate", "moe", "mixint", "vfm", "problem") and k[2:] not in ("lims",):
                    yield cls_finding(cx, "C03-result-aliases-input", cx.sc.meta["cls"], "%s <- %s" % (k[2:], o[1]), "the result of %s can be the array %r of the caller itself" % (k[2:], o[1]))
            elif loc in state and m["phase"] not in ph_ok and k[2:] not in ("lims",):
                yield cls_finding(cx, "C03-result-aliases-state", cx.sc.meta["cls"], "%s <- s%s" % (k[2:], state[loc]), "the result of %s is (part of) the object the model keeps as s%s" % (k[2:], state[loc]))


def service_obj(cx, loc):
    """objects held by a Printer"""
    if not hasattr(cx, "_svc"):
        cx._svc = set()
        for k, (v, st) in cx.run.kept.items():
            for l in reach(cx.I, v, st):
                o = st.heap.get(l)
                if o is not None and o.kind == "inst" and o.cls.name in SERVICE:
                    cx._svc |= set(reach(cx.I, ref(("o", l)), st))
    return loc in cx._svc


# ------------------------------------------------------------------------------------- C04
def train_repeatable(cx):
    """a second training on the same data starts from the state the first one started from"""
    I = cx.I
    if "s" not in cx.run.kept or "s1" not in cx.run.kept:
        return
    tr = ("train1", "predict")
    for e in I.evs("attr_read"):
        if lib(e) and e.phase == "train2":
            cx.n("attribute reads in the second training")
            if e.data[2] not in SERVICE and any(p in tr for p in e.data[3]):
                yield ev_finding("C04-state-carried-over", e, "a second training reads the attribute %r of %s as an earlier training or prediction left it" % (e.data[1], e.data[2]), "%s.%s" % (e.data[2], e.data[1]))
    v, st = cx.run.kept["s1"]
    for loc in reach(I, v, st):
        o = st.heap.get(loc)
        if o is None or o.kind != "opts":
            continue
        if I.meta[loc]["phase"] not in ("init", "declare", "data", ""):
            continue
        for nm, ep in o.ep.items():
            cx.n("options checked after training")
            if "train1" in ep:
                yield cls_finding(cx, "C04-option-changed", cx.sc.meta["cls"], "option %s" % nm, "training leaves the option %r with another value than the user gave" % nm, where_opt(I, loc, nm))
    for e in I.evs("mutate"):
        loc, origin, ph, how = e.data
        if lib(e) and e.phase == "train1" and ph in ("data",) and not (origin and origin[0] in ("caller", "option")) and in_training_data(cx, loc):
            yield ev_finding("C04-training-data-changed", e, "training modifies the stored training data in place (%s)" % how)


def in_training_data(cx, loc):
    if not hasattr(cx, "_td"):
        cx._td = set()
        if "sdata" in cx.run.kept:
            v, st = cx.run.kept["sdata"]
            for r in v.refs:
                o = st.heap.get(r[1]) if r[0] == "o" else None
                if o is not None and o.kind == "inst" and "training_points" in o.attrs:
                    cx._td |= set(reach(cx.I, o.attrs["training_points"], st))
    return loc in cx._td


def where_opt(I, loc, nm):
    return ["%s %s" % (e.where(), e.fi.qual if e.fi else "-") for e in I.evs("opt_write") if e.data[0] == loc and e.data[1] == nm and e.phase.startswith("train")][:5]


# ------------------------------------------------------------------------------------- C11
def variance_nonneg(cx):
    """every predicted variance is bounded below by zero"""
    for k, (v, st) in cx.run.kept.items():
        if not (k.startswith("r_variances") or k.startswith("r_std")):
            continue
        cx.n("predicted variances bounded")
        a = cx.I.at(st, v)
        if not a.lo >= 0:
            yield cls_finding(cx, "C11-variance-may-be-negative", cx.sc.meta["cls"], k[2:], "nothing keeps the predicted variances from being negative (they lie in [%s, %s])" % (a.lo, a.hi), producers(cx, "predict_variances"))


def producers(cx, name):
    """the functions that compute a result, for the report"""
    out = []
    for f in sorted(cx.I.funcs_seen, key=str):
        q = getattr(f, "qual", str(f))
        if q.endswith("." + name) or q.endswith("._" + name) or "variances" in q:
            out.append(q)
    return out[:6]


# ------------------------------------------------------------------------------------- C13
def points_independent(cx):
    """no value predicted for a point combines other points of the same call"""
    ph = cx.sc.meta.get("pure", PREDICT)
    for e in cx.I.evs("mix_unknown"):
        if lib(e) and e.phase in ph:
            cx.n("reductions of unknown extent (undecided)")
    for e in cx.I.evs("reduce"):
        if lib(e) and e.phase in ph and "row" in e.data[2]:
            cx.n("reductions over data of the points")
    for k, (v, st) in cx.run.kept.items():
        if not k.startswith("r_") or "variance_derivatives" in k or cx.sc.meta["kind"] not in ("surrogate", "problem", "moe", "vfm", "mixint"):
            continue
        cx.n("results traced to their points")
        for t in sorted((t for t in cx.I.at(st, v).tags if isinstance(t, tuple) and t[0] == "mix"), key=str):
            file, _, line = t[1].partition(":")
            yield Finding("C13-points-combined", cx.sc.meta["cls"], "%s <- %s" % (k[2:], t[2]), file, line, "the result of %s at one point depends on the other points of the call (%s)" % (k[2:], t[2]))


# ------------------------------------------------------------------------------------- C23
def instances_independent(cx):
    """no object shared between instances is ever changed"""
    for e in cx.I.evs("mutate"):
        if not lib(e):
            continue
        loc, origin, ph, how = e.data
        cx.n("writes examined")
        if origin and origin[0] in ("class", "default", "module"):
            what = {"class": "the class attribute %s", "default": "the default argument of %s", "module": "the module-level object %s"}[origin[0]] % ".".join(map(str, origin[1:]))
            yield ev_finding("C23-shared-object-changed", e, "modifies %s in place (%s)" % (what, how), stmt_head(e.node) + " <- " + ".".join(map(str, origin)))
    for e in cx.I.evs("attr_write"):
        if lib(e):
            cx.n("writes examined")
            o = cx.I.meta[e.data[0]]["origin"]
            if o and o[0] in ("class", "default", "module"):
                yield ev_finding("C23-shared-object-changed", e, "assigns an attribute of an object shared by all instances (%s)" % ".".join(map(str, o)), "%s.%s" % (e.data[2], e.data[1]))
    for e in cx.I.evs("class_write"):
        if lib(e):
            yield ev_finding("C23-class-written", e, "assigns the class attribute %s.%s" % e.data, "%s.%s" % e.data)
    for e in cx.I.evs("global_write"):
        if lib(e):
            yield ev_finding("C23-global-written", e, "assigns the module variable %s.%s" % e.data, "%s.%s" % e.data)
    for e in cx.I.evs("ext_write"):
        if lib(e):
            yield ev_finding("C23-other-module-written", e, "assigns %s.%s" % e.data, "%s.%s" % e.data)


# ------------------------------------------------------------------------------------- C08
def randomness(cx):
    """nothing reseeds the generator of the process; with a seed given, every draw comes from a generator built from it"""
    for e in cx.I.evs("rng_seed"):
        if lib(e):
            yield ev_finding("C08-global-reseeded", e, "sets the state of the random generator of the whole process")
    opt = cx.sc.meta.get("option")
    for e in cx.I.evs("rng"):
        if not lib(e):
            continue
        cx.n("random draws examined")
        apart = cx.sc.meta.get("apart")
        if opt and e.data[0] != "seeded" and not (apart and e.fi.module.name.startswith(apart)):
            cx.n("draws that %s must control" % "a seed")
            yield ev_finding("C08-seed-ignored", e, "draws random numbers (%s) that the option %r of %s does not control" % (e.data[1], opt, cx.sc.meta["cls"]), stmt_head(e.node) + " " + opt)
        elif opt and e.data[0] == "seeded":
            cx.n("draws from the generator of the seed")


# ------------------------------------------------------------------------------------- C09
CAPS = {"derivatives": "r_derivatives", "variances": "r_variances", "variance_derivatives": "r_variance_derivatives", "output_derivatives": "r_output_derivatives"}


def capabilities(cx):
    """a model does what it advertises, and refuses what it does not"""
    if cx.sc.meta["kind"] != "surrogate" or "s1" not in cx.run.kept:
        return
    v, st = cx.run.kept["s1"]
    for r in v.refs:
        o = st.heap.get(r[1]) if r[0] == "o" else None
        if o is None or o.kind != "inst" or "supports" not in o.attrs:
            continue
        for q in o.attrs["supports"].refs:
            d = st.heap.get(q[1]) if q[0] == "o" else None
            if d is None or d.kind != "dict":
                continue
            for cap, res in CAPS.items():
                c = d.keys.get(cap)
                if c is None or not c.all_consts() or len(c.consts) != 1:
                    cx.n("capabilities the analysis does not determine")
                    continue
                cx.n("capabilities compared with the operation")
                can = res in cx.run.kept
                yes = c.single_const()
                if yes and not can:
                    yield cls_finding(cx, "C09-advertised-but-fails", cx.sc.meta["cls"], cap, "advertises %r, but the operation fails on every path" % cap, ops(cx, res))
                if can and not yes:
                    yield cls_finding(cx, "C09-not-refused", cx.sc.meta["cls"], cap, "does not advertise %r, but the operation returns" % cap, ops(cx, res))


def ops(cx, res):
    return sorted({"%s %s" % (e.where(), e.fi.qual.split(":")[1]) for e in cx.I.evs("raise") if lib(e) and e.phase == "predict"})[:6]


# ------------------------------------------------------------------------------------- C15
def result_shapes(cx):
    """the shape of every result is the documented one"""
    from domain import sym_var, sym_const, sym_str
    n, nt, nx, ny, one = sym_var("n"), sym_var("nt"), sym_var("nx"), sym_var("ny"), sym_const(1)
    kind = cx.sc.meta["kind"]
    for k, (v, st) in sorted(cx.run.kept.items()):
        if not k.startswith("r_"):
            continue
        if kind == "sampling":
            rows, cols = nt, (nx,)
            if cx.sc.meta["cls"] == "NestedLHS":
                continue
        elif kind in ("surrogate", "moe", "vfm", "problem"):
            rows, cols = n, (ny, one) if kind != "problem" else (one,)
            if k.startswith("r_variance_derivatives"):
                continue  # for one point only; the shape is the number of inputs
            if k.startswith("r_output_derivatives"):
                continue  # a dictionary
        elif kind == "mixint" and k in ("r_values", "r_variances"):
            rows, cols = n, (ny, one)
        elif kind == "mixint" and k in ("r_doe", "r_doe2"):
            rows, cols = nt, None
        else:
            continue
        for r in v.refs:
            o = st.heap.get(r[1]) if r[0] == "o" else None
            if o is None or o.kind != "arr":
                continue
            sh = v.shape
            for alt in sorted(v.alts, key=str):
                if len(alt) != 2 and not (len(alt) == 1 and cx.sc.meta["cls"] == "MGP") or (len(alt) == 2 and known_dim(alt[0]) and alt[0] != rows):
                    yield cls_finding(cx, "C15-shape-varies", cx.sc.meta["cls"], k[2:].rstrip("2"), "on some path the result of %s has the shape (%s)" % (k[2:], ", ".join(sym_str(d) if d is not None else "?" for d in alt)), producers2(cx, k))
            if cx.sc.meta.get("exact") and sh is not None and sh[0] is not None and sh[0] != rows:
                yield cls_finding(cx, "C15-count", cx.sc.meta["cls"], k[2:].rstrip("2"), "the number of samples is %s, not the requested one" % sym_str(sh[0]))
                continue
            if sh is None:
                cx.n("results whose shape the analysis does not know")
                continue
            if len(sh) == 1 and cx.sc.meta["cls"] == "MGP" and k.startswith(("r_values", "r_variances")):
                cx.n("results of documented flat shape")
                continue
            txt = "(%s)" % ", ".join(sym_str(d) if d is not None else "?" for d in sh)
            cx.n("results whose shape is decided")
            if len(sh) != 2:
                yield cls_finding(cx, "C15-rank", cx.sc.meta["cls"], k[2:].rstrip("2"), "the result of %s has the shape %s" % (k[2:], txt), producers2(cx, k))
            elif sh[0] is not None and known_dim(sh[0]) and sh[0] != rows:
                yield cls_finding(cx, "C15-rows", cx.sc.meta["cls"], k[2:].rstrip("2"), "the result of %s has the shape %s, not one row per point" % (k[2:], txt), producers2(cx, k))
            elif cols and sh[1] is not None and known_dim(sh[1]) and sh[1] not in cols:
                yield cls_finding(cx, "C15-columns", cx.sc.meta["cls"], k[2:].rstrip("2"), "the result of %s has the shape %s" % (k[2:], txt), producers2(cx, k))


    # the returns of the public operations, each on its own
    for e in cx.I.evs("ret"):
        if not lib(e) or kind == "ego":
            continue
        name, sh, none, alts = e.data
        cls = e.fi.cls.name if e.fi.cls is not None else ""
        if name in ("__call__", "_compute"):
            if kind == "problem" and cx.I.ix.has_cls(cls) and cx.I.ix.cls(cls).is_subclass_of(cx.I.ix.cls("Problem")):
                want = 2, n, (one,)
            elif kind == "sampling" and cx.I.ix.has_cls(cls) and cx.I.ix.cls(cls).is_subclass_of(cx.I.ix.cls("SamplingMethod")):
                want = 2, nt, (nx,)
            else:
                continue
        elif kind in ("surrogate", "moe", "vfm", "mixint") and e.fi.cls is not None and cls != "MGP":
            want = 2, None, (ny, one)
        else:
            continue
        cx.n("returns of public operations examined")
        if none:
            yield ev_finding("C15-none", e, "%s may return nothing" % name)
        if cx.sc.meta.get("exact") and sh is not None and len(sh) == 2 and sh[0] is not None and sh[0] != nt:
            yield ev_finding("C15-count", e, "the number of samples is %s, not the requested one" % sym_str(sh[0]))
        for alt in sorted(alts, key=str):
            if len(alt) != 2:
                yield ev_finding("C15-rank", e, "%s may return an array of rank %d" % (name, len(alt)))
        if sh is not None and len(sh) != 2:
            yield ev_finding("C15-rank", e, "%s returns an array of rank %d" % (name, len(sh)))
        elif sh is not None and want[1] is not None and known_dim(sh[0]) and sh[0] != want[1]:
            yield ev_finding("C15-rows", e, "%s returns an array whose first dimension is %s" % (name, sym_str(sh[0])))
        elif sh is not None and sh[1] is not None and known_dim(sh[1]) and sh[1] not in want[2]:
            yield ev_finding("C15-columns", e, "%s returns an array whose second dimension is %s" % (name, sym_str(sh[1])))
    for e in cx.I.evs("implicit_none"):
        if lib(e) and e.fi.name in ("predict_values", "predict_derivatives", "predict_variances", "_predict_values", "_predict_derivatives", "_predict_variances", "_evaluate", "_compute", "__call__") and e.fi.cls is not None and any(k.name in ("SurrogateModel", "Problem", "SamplingMethod", "VFM", "MOE") for k in e.fi.cls.mro()):
            yield ev_finding("C15-none", e, "some path ends without a result", e.fi.name)


def known_dim(d):
    return d is not None and all(x in DATA_DIMS for k, _ in d for x in k)


def producers2(cx, k):
    nm = {"r_values": "predict_values", "r_derivatives": "predict_derivatives", "r_variances": "predict_variances"}.get(k.rstrip("2"), "_evaluate" if cx.sc.meta["kind"] == "problem" else "_compute")
    return producers(cx, nm)


# ------------------------------------------------------------------------------------- C22
def rejects(cx):
    """calls with arguments of the wrong form raise, and leave the object as it was"""
    calls = cx.sc.meta["calls"]
    for i, (call, what) in enumerate(calls):
        if "acc_%d" % i in cx.run.kept:
            if any(e.phase == "reject%d" % i for e in cx.I.evs("raise") if lib(e)):
                cx.n("calls that are rejected under a condition the analysis does not decide")
                continue
            cx.n("calls with arguments of the wrong form")
            yield cls_finding(cx, "C22-accepted", cx.sc.meta["cls"], what, "accepts %s" % what)
        else:
            cx.n("calls with arguments of the wrong form")
    for e in cx.I.evs("mutate", "attr_write", "opt_write"):
        if not lib(e) or not e.phase.startswith("reject"):
            continue
        cx.n("writes examined in rejected calls")
        ph = e.data[2] if e.kind == "mutate" else e.data[3]
        if ph.startswith("reject") or (e.kind == "attr_write" and e.data[2] in SERVICE) or (e.kind == "mutate" and service_obj(cx, e.data[0])):
            continue
        yield ev_finding("C22-rejected-but-changed", e, "a call that is rejected has already changed the object", stmt_head(e.node))


# ------------------------------------------------------------------------------------- C10
UNITS = {
    "values": ((0, 1), "the unit of the outputs"),
    "derivatives": ((-1, 1), "outputs per input"),
    "variances": ((0, 2), "outputs squared"),
    "variance_derivatives": ((-1, 2), "outputs squared per input"),
    "output_derivatives": ((0, 0), "a pure number"),
}


# the entry points that return something with a unit, and the unit: of X, of Y, what it is, whether it moves with
# the origin of the inputs and of the outputs (None: the statement does not settle it)
UNITS_X = ((1, 0), "the unit of the inputs", 1, 0)
UNITS_OF = {
    "sampling": {"1": UNITS_X, "2": UNITS_X},
    "ego": {k + n: u for k in "12" for n, u in ((".0", UNITS_X), (".1", ((0, 1), "the unit of the outputs", 0, 1)), (".3", UNITS_X), (".4", ((0, 1), "the unit of the outputs", 0, 1)))},
    "mixint": {"fold": UNITS_X, "unfold": UNITS_X, "cast": UNITS_X, "mixed": UNITS_X},
    "utils": {"rms": ((0, 0), "a pure number", 0, None), "rms_t": ((0, 0), "a pure number", 0, None)},
}


def units_results(cx):
    """(key, values, expected unit) of every result of a life"""
    of = UNITS_OF.get(cx.sc.meta.get("of"), {})
    for k, (v, st) in sorted(cx.run.kept.items()):
        if not k.startswith("r_"):
            continue
        k = k[2:]
        parts = [cx.I.obj(st, r) for r in v.refs]
        if k in of:
            yield k, [v], st, of[k]
        elif k.rstrip("0123456789") in UNITS:
            vals = [v]
            if k == "output_derivatives":
                vals = [w for o in parts if o is not None and o.kind == "dict" for w in o.keys.values()]
            e, what = UNITS[k.rstrip("0123456789")]
            yield k, vals, st, (e, what, 0, 1 if k.startswith("values") else 0)
        elif k + ".0" in of:
            for o in parts:
                if o is not None and o.kind == "tuple" and o.items is not None:
                    for i, w in enumerate(o.items):
                        if "%s.%d" % (k, i) in of:
                            yield "%s.%d" % (k, i), [w], st, of["%s.%d" % (k, i)]


def units(cx):
    """what is returned is in the units of the data it was made from"""
    m = cx.sc.meta
    for e in cx.I.evs("unit_conflict"):
        if lib(e):
            yield ev_finding("C10-mixed-units", e, e.data.split(": ", 1)[-1], stmt_head(e.node))
    cx.n("operations whose units were combined", cx.I.unit_ops)
    for k, vals, st, ((ex, ey), what, wx, wy) in units_results(cx):
        if m["mode"] == "y":
            ex = 0
        cx.n("results whose unit was derived")
        u = None
        for w in vals:
            u = u_join(u, cx.I.at(st, w).unit)
        where = "%s: %s" % (m["cls"], k) if "of" in m else "%s.predict_%s" % (m["cls"], k)
        if u is not None and is_conf(u):
            cx.n("units decided")
            yield cls_finding(cx, "C10-mixed-units", m["cls"], k, "%s: %s" % (where, u[1]))
            continue
        if u is None and (ex, ey) != (0, 0) or u == UT:
            cx.n("units undecided")
            cx.facts.append(("undecided unit", m["cls"], k, m["mode"]))
            continue
        cx.n("units decided")
        g = u if u is not None else DIMLESS
        if g[:2] != (ex, ey):
            yield cls_finding(cx, "C10-wrong-unit", m["cls"], k, "%s is in %s, not in %s" % (where, u_str(g), what))
            continue
        for d, want, got in (("inputs", wx, g[2]), ("outputs", wy, g[3])):
            if want is None or m["mode"] == "y":
                continue
            if got in ("?", "N"):
                cx.n("shifts of the %s undecided" % d)
            else:
                cx.n("shifts of the %s decided" % d)
                if got != want:
                    yield cls_finding(cx, "C10-shift", m["cls"], k, "%s %s the origin of the %s: %s" % (where, "does not move with" if want else "moves with", d, u_str(g)))


# ------------------------------------------------------------------------------------- C12
def p_str(p):
    if p is None or p == FREE:
        return "nothing keeps it between the limits"
    if p == OTHER:
        return "it is made from the limits of other inputs"
    t = lambda x, y: "%g" % x if x == y else "%g..%g" % (x, y)
    return "%s times the lower plus %s times the upper limit" % (t(p[0], p[1]), t(p[2], p[3]))


def inside(a):
    """of the attributes of a value: True, False or None (unknown)"""
    if a.pos is None and a is not BOTA and a.unit is None and (a.lo > -INF or a.hi < INF):
        return False  # numbers that have nothing to do with the limits
    return p_inside(a.pos)


def limits(cx):
    """points handed out or evaluated lie between the limits"""
    m = cx.sc.meta
    for e in cx.I.evs("user_point"):
        cx.n("points at which the user's function is evaluated")
        ok = inside(e.data[1])
        cx.n("places decided" if ok is not None else "places undecided")
        if ok is False:
            yield ev_finding("C12-evaluated-outside", e, "the user's function is evaluated outside the limits: %s" % p_str(p_num(e.data[1].pos)), stmt_head(e.node))
    for k, (v, st) in sorted(cx.run.kept.items()):
        if not k.startswith("r_"):
            continue
        vals = [("", v)]
        if m["of"] == "ego":
            vals = []
            for o in [cx.I.obj(st, r) for r in v.refs]:
                if o is not None and o.kind == "tuple" and o.items is not None and len(o.items) == 5:
                    vals += [("the point found", o.items[0]), ("the points evaluated", o.items[3])]
        else:
            for o in [cx.I.obj(st, r) for r in v.refs]:
                if o is not None and o.kind in ("list", "tuple"):
                    vals.append(("", o.all()))
        for what, w in vals:
            p = cx.I.at(st, w).pos
            ok = inside(cx.I.at(st, w))
            if ok is None and len(vals) > 1 and not what:
                continue
            cx.n("results located")
            cx.n("places decided" if ok is not None else "places undecided")
            if ok is None:
                cx.facts.append(("undecided place", m["cls"], k, what))
            if ok is False:
                yield cls_finding(cx, "C12-outside", m["cls"], what or "the samples", "%s: %s can lie outside the limits: %s" % (m["cls"], what or "a sample", p_str(p_num(p))))


# ------------------------------------------------------------------------------------- C05
def options_contract(cx):
    """what is declared is what is accepted, and what is accepted is what is in force"""
    m, kept, cls = cx.sc.meta, cx.run.kept, cx.sc.meta["cls"]
    cx.n("objects made with their declared defaults")
    if "made" not in kept:
        yield cls_finding(cx, "C05-defaults-refused", cls, "the defaults", "cannot be made with the defaults it declares")
        return
    for i, (call, what) in enumerate(m["calls"]):
        cx.n("values that the declarations exclude")
        if "acc_%d" % i in kept:
            yield cls_finding(cx, "C05-accepted", cls, what, "accepts %s (%s)" % (what, call))
    for e in cx.I.evs("mutate", "attr_write"):
        if not lib(e) or not e.phase.startswith("reject"):
            continue
        ph = e.data[2] if e.kind == "mutate" else e.data[3]
        i = int(e.phase[6:])
        if ph.startswith("reject") or m["calls"][i][1].startswith("the declaration"):
            continue
        cx.n("writes examined in refused assignments")
        yield ev_finding("C05-refused-but-changed", e, "a refused assignment of an option (%s) has already changed the object" % m["calls"][i][0], stmt_head(e.node))
    for i, o in enumerate(m.get("names", ())):
        a = kept["first_%d" % i][0].single_const()
        if a is NOCONST:
            continue
        for k, what in (("old", "an object made before"), ("new", "an object made afterwards")):
            cx.n("options of other objects compared")
            b = kept[k + "_%d" % i][0].single_const() if k + "_%d" % i in kept else NOCONST
            if type(a) is not type(b) or a != b:
                yield cls_finding(cx, "C05-shared", cls, "%s: option %s" % (what, o), "setting option %s of one object changes it in %s" % (o, what))
    want = {}
    for i, (o, v, must) in enumerate(m["good"]):
        how = {"c": "at construction", "s": "by assignment", "u": "by update"}
        for k in how if cls != "OptionsDictionary" else "su":
            want["get_%s%d" % (k, i)] = (ast.literal_eval(v), "option %s = %s given %s" % (o, v, how[k]), must or k != "c")
    for k, v in m.get("end", {}).items():
        want["get_" + k] = (v, "the value %s" % k, True)
    for k, (v, what, must) in want.items():
        cx.n("values read back")
        if k not in kept:
            if not must:
                cx.n("admitted values that the constructor refuses")
                continue
            yield cls_finding(cx, "C05-refused", cls, what, "refuses %s, which the declaration admits" % what)
            continue
        w, st = kept[k]
        ok = w.single_const() is not NOCONST and type(w.single_const()) is type(v) and w.single_const() == v
        if isinstance(v, (list, tuple)):
            ok = all(cx.I.obj(st, r) is not None and cx.I.obj(st, r).kind == type(v).__name__ for r in w.refs) and w.refs and not w.unk
        if not ok:
            yield cls_finding(cx, "C05-not-in-force", cls, what, "does not hold %s afterwards" % what)


# ------------------------------------------------------------------------------------- C24
def attrs_there(cx):
    """attributes are set, on every path, before they are read"""
    for e in cx.I.evs("attr_read"):
        if lib(e):
            cx.n("attribute reads examined")

    api = ("SurrogateModel", "Problem", "SamplingMethod", "SurrogateBasedApplication")
    parts = api + ("LineSearch", "Model", "Activation", "Callback", "Printer")

    def of(e, bases):
        ix = cx.I.ix
        return ix.has_cls(e.data[0]) and any(ix.has_cls(b) and ix.cls(e.data[0]).is_subclass_of(ix.cls(b)) for b in bases)

    for e in cx.I.evs("attr_missing"):
        if lib(e) and of(e, parts):
            yield ev_finding("C24-attribute-never-set", e, "the attribute %r of a %s is read, but no path sets it" % (e.data[1], e.data[0]), "%s.%s" % e.data)
    # objects made in data-dependent numbers share one summary, whose weak updates cannot tell
    # "some object of the class" from "some path"; the objects a user makes directly do not
    for e in cx.I.evs("attr_maybe"):
        if lib(e) and of(e, api) and cx.sc.meta["kind"] in ("surrogate", "problem", "sampling", "ego"):
            yield ev_finding("C24-attribute-maybe-unset", e, "the attribute %r of a %s is read, but some path leaves it unset" % (e.data[1], e.data[0]), "%s.%s" % e.data)


def calls_complete(cx):
    """calls whose target only the interpretation knows: arguments fit, and the method has a body"""
    for e in cx.I.evs("missing_arg"):
        if lib(e):
            yield ev_finding("C24-call-does-not-fit", e, "the argument %r of %s is not given" % (e.data[1], e.data[0].split(":")[-1]), "%s(%s)" % e.data)
    for e in cx.I.evs("extra_arg"):
        if lib(e):
            yield ev_finding("C24-call-does-not-fit", e, "%s does not take these arguments (%s)" % (e.data[0].split(":")[-1], e.data[1]), "%s(%s)" % e.data)
    for e in cx.I.evs("abstract_call"):
        if lib(e):
            yield ev_finding("C24-no-body", e, "%s is called, but this class does not define it" % e.data.split(":")[-1], e.data)
    cx.n("interpreted calls", cx.I.ncalls)


# ------------------------------------------------------------------------------------- C06
def owners(cx):
    """options object -> class of the object it belongs to"""
    out = {}
    for v, st in list(cx.run.kept.values()) + ([(None, cx.run.end)] if getattr(cx.run, "end", None) is not None else []):
        for loc, o in st.heap.items():
            if o.kind == "inst" and "options" in o.attrs:
                for r in o.attrs["options"].refs:
                    if r[0] == "o":
                        out.setdefault(r[1], o.cls.name)
    return out


def live_reads(cx):
    """nodes inside definitions that nothing uses"""
    dead = set()
    seen = {}
    for e in cx.I.evs("opt_read"):
        if e.fi is None or not isinstance(e.fi.node, ast.FunctionDef):
            continue
        if e.fi.qual not in seen:
            seen[e.fi.qual] = True
            for nm, s, v in live.Live(e.fi.node).dead:
                if v is not None:
                    dead |= {id(x) for x in ast.walk(v)}
    return dead


def options_read(cx):
    """which options each object reads for a value that is used; the verdict is drawn over all lives of a class"""
    own = owners(cx)
    dead = live_reads(cx)
    for e in cx.I.evs("opt_declare"):
        loc, nm = e.data
        if loc in own and e.fi is not None:
            cx.n("option declarations met")
            cx.facts.append(("decl", own[loc], nm, e.fi.qual, e.fi.module.rel, getattr(e.node, "lineno", 0)))
    for e in cx.I.evs("opt_read"):
        loc, nm, declared, _ = e.data
        if not lib(e):
            continue
        cx.n("option reads examined")
        if declared is False:
            yield ev_finding("C06-option-unknown", e, "the option %r is read but not declared" % (nm,), str(nm))
        if loc in own and id(e.node) not in dead:
            cx.facts.append(("read", own[loc], nm))


def options_used(facts):
    """every option a class declares is read, for a value that is used, in some life of the class"""
    read = {(f[1], f[2]) for f in facts if f[0] == "read"}
    every = {c for c, n in read if n in ("?", None)}
    for f in sorted({f for f in facts if f[0] == "decl"}, key=str):
        _, cls, nm, qual, rel, line = f
        if (cls, nm) in read or cls in every or nm == "name" or str(nm).startswith("print_"):
            continue
        yield Finding("C06-option-ignored", cls, "option %s" % nm, rel, line, "no operation of %s uses the value of its option %r" % (cls, nm))


# ------------------------------------------------------------------------------------- C07
# values an inherited declaration lists and that the class refuses with a ValueError when it is trained: the correlation
# of MGP alone is the activation kernel, its likelihood has no gradient-free optimizer, and no other class takes that kernel
REFUSED = {("KRG", "corr", "act_exp"), ("MFK", "corr", "act_exp"), ("MGP", "hyper_opt", "Cobyla")}
REFUSED |= {("MGP", "corr", v) for v in ("abs_exp", "squar_exp", "matern32", "matern52", "pow_exp")}
# every expert the library can choose predicts derivatives, so asking for that support excludes none
ALIKE = {("MOE", "derivatives_support")}


def value_works(cx):
    """a life with one admissible value of an option; what is executed is compared over the values"""
    m = cx.sc.meta
    cx.n("admissible values tried")
    if cx.run.dead and (m["cls"], m["option"], m["value"]) in REFUSED:
        cx.n("values refused by the class")
        return
    if cx.run.dead:
        yield cls_finding(cx, "C07-value-unusable", m["cls"], "%s=%r" % (m["option"], m["value"]), "with the admissible value %s=%r no path completes training and prediction" % (m["option"], m["value"]), where_raised(cx))
        return
    trace = cx.I.trace
    cx.facts.append(("trace", m["cls"], m["option"], repr(m["value"]), hashlib.md5(repr(sorted(trace, key=str)).encode()).hexdigest(), len(trace)))


def where_raised(cx):
    return sorted({"%s %s" % (e.where(), e.fi.qual.split(":")[-1]) for e in cx.I.evs("raise", "missing_arg", "extra_arg", "attr_missing") if lib(e)})[:6]


def values_differ(facts):
    by = {}
    for _, cls, opt, v, h, n in (f for f in facts if f[0] == "trace"):
        by.setdefault((cls, opt, h), []).append(v)
    for (cls, opt, h), vs in sorted(by.items()):
        if len(vs) > 1 and (cls, opt) not in ALIKE:
            yield Finding("C07-values-indistinct", cls, "%s: %s" % (opt, ", ".join(sorted(vs))), "-", 0, "the values %s of option %s of %s are treated alike" % (", ".join(sorted(vs)), opt, cls))


def silent(cx):
    """in the phases that must be silent no path reaches a print"""
    for e in cx.I.evs("print"):
        cx.n("prints reached")
        if e.phase.startswith("quiet:"):
            what = e.phase[6:]
            opt = what if what.startswith("print_") else "print_global"
            yield ev_finding("C20-printed", e, "%s=False, and some path prints all the same" % opt, opt)
    cx.n("silent lives analysed")


MEMO = {"lru_cache", "cache", "memoize", "cached"}


def no_hidden_memo(sx):
    """functions and methods keep no results between calls in a store shared by all objects"""
    for f in sx.ix.all_functions():
        sx.n("functions examined for shared result stores")
        for d in f.node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
            if nm in MEMO:
                yield Finding("C23-shared-memo", f.qual, "@" + nm, f.module.rel, f.node.lineno, "the results of this function are stored for all objects of the process (@%s)" % nm)


class StaticCtx:
    """for the rules over the whole program"""

    def __init__(self, ix):
        self.ix = ix
        self.count = {}
        self.undecided = []

    def n(self, what, k=1):
        self.count[what] = self.count.get(what, 0) + k
