"""The scenario suite: which objects are analysed, through which public life, under which option values."""
import ast

from absint import *
from index import Index, AnalysisBroken
from lifecycle import Run

NT, NX, NY, N = sym_var("nt"), sym_var("nx"), sym_var("ny"), sym_var("n")
XA = Abs(U(1, 0, 1, 0))
YA = Abs(U(0, 1, 0, 1))

ARGS = {
    "xt": dict(a=XA, shape=(NT, NX)),
    "yt": dict(a=YA, shape=(NT, NY)),
    "xlf": dict(a=XA, shape=(sym_var("nlf"), NX)),
    "ylf": dict(a=YA, shape=(sym_var("nlf"), NY)),
    "xdt": dict(a=XA, shape=(NT, NX)),
    "dyt": dict(a=Abs(U(-1, 1, 0, 0)), shape=(NT, NY)),
    "x": dict(a=Abs(U(1, 0, 1, 0), tags=frozenset(["row"])), shape=(N, NX)),
    "xlimits": dict(a=XA, shape=(NX, sym_const(2))),
    "limits": dict(a=XA.with_(pos=LIM), shape=(NX, sym_const(2))),
    "x1": dict(a=XA, shape=(NX,)),
    "y": dict(a=YA, shape=(N, sym_const(1))),
    "xdoe": dict(a=XA, shape=(NT, NX)),
    "ydoe": dict(a=YA, shape=(NT, sym_const(1))),
    "mtx": dict(a=TOPA, shape=(N, N)),
    "rhs": dict(a=TOPA, shape=(N, NY)),
    "yt2": dict(a=YA, shape=(NT, NY)),
    # data no operation may accept
    "y_rows": dict(a=YA, shape=(sym_add(NT, ONE), NY)),
    "y_fewer": dict(a=YA, shape=(sym_add(NT, ONE, -1), NY)),
    "x_fewer": dict(a=Abs(U(1, 0, 1, 0), tags=frozenset(["row"])), shape=(N, sym_add(NX, ONE, -1))),
    "x_cols": dict(a=Abs(U(1, 0, 1, 0), tags=frozenset(["row"])), shape=(N, sym_add(NX, ONE))),
    "x_rank": dict(a=Abs(U(1, 0, 1, 0), tags=frozenset(["row"])), shape=(N, NX, sym_const(2))),
    "y_rank": dict(a=YA, shape=(NT, NY, sym_const(2))),
}

BAD_POINTS = (("columns", '__h_arg("x_cols")'), ("fewer columns", '__h_arg("x_fewer")'), ("a list", "[[1.0]]"), ("rank 3", '__h_arg("x_rank")'))
BAD_CALLS = """
    __h_phase("reject{i}")
    try:
        {call}
        __h_keep("acc_{i}", s)
    except Exception:
        pass
"""


def bad_calls(calls):
    return "".join(BAD_CALLS.format(call=c, i=i) for i, (c, _) in enumerate(calls))


def surrogate_bad_calls(mf):
    out = []
    for w, x in BAD_POINTS:
        for m, extra in (("predict_values", ""), ("predict_derivatives", ", 0"), ("predict_variances", ""), ("predict_variance_derivatives", ""), ("predict_output_derivatives", "")):
            out.append(("s.%s(%s%s)" % (m, x, extra), "%s given points of the wrong form (%s)" % (m, w)))
    for w, y in (("another number of points", '__h_arg("y_rows")'), ("fewer points", '__h_arg("y_fewer")'), ("a list", "[[1.0]]"), ("rank 3", '__h_arg("y_rank")')):
        out.append(('s.set_training_values(__h_arg("xt"), %s)' % y, "set_training_values given outputs of the wrong form (%s)" % w))
        out.append(("s.update_training_values(%s)" % y, "update_training_values given outputs of the wrong form (%s)" % w))
        out.append(('s.set_training_derivatives(__h_arg("xdt"), %s, 0)' % y, "set_training_derivatives given derivatives of the wrong form (%s)" % w))
        out.append(("s.update_training_derivatives(%s, 0)" % y, "update_training_derivatives given derivatives of the wrong form (%s)" % w))
    out.append(('s.set_training_values([[1.0]], __h_arg("yt"))', "set_training_values given a list of inputs"))
    out.append(('s.update_training_values(__h_arg("yt2"), name="never set")', "update_training_values for data that was never set"))
    out.append(('s.update_training_derivatives(__h_arg("dyt"), 0, name="never set")', "update_training_derivatives for data that was never set"))
    out.append(('s.set_training_derivatives(__h_arg("xdt"), __h_arg("dyt"), 0.5)', "set_training_derivatives for a variable that is no integer"))
    return out


REJECT_LIFE = """
from smt.{mod} import {cls}
def main():
    s = {cls}()
    __h_phase("data")
{data}
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
{bad}
    __h_keep("s", s)
"""


def phase(p):
    return '    __h_phase("%s")\n' % p


PRED = """
    try:
        __h_keep("r_values", {o}.predict_values(__h_arg("x")))
    except Exception:
        pass
    try:
        __h_keep("r_derivatives", {o}.predict_derivatives(__h_arg("x"), __h_any()))
    except Exception:
        pass
    try:
        __h_keep("r_variances", {o}.predict_variances(__h_arg("x")))
    except Exception:
        pass
    try:
        __h_keep("r_variance_derivatives", {o}.predict_variance_derivatives(__h_arg("x")))
    except Exception:
        pass
    try:
        __h_keep("r_output_derivatives", {o}.predict_output_derivatives(__h_arg("x")))
    except Exception:
        pass
"""
PREDV = """
    try:
        __h_keep("r_values", {o}.predict_values(__h_arg("x")))
    except Exception:
        pass
    try:
        __h_keep("r_variances", {o}.predict_variances(__h_arg("x")))
    except Exception:
        pass
"""

SURR_LIFE = """
from smt.{mod} import {cls}
def main():
    s = {cls}({ctor})
    __h_keep("s0", s)
    __h_phase("data")
{data}
    __h_keep("sdata", s)
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
{pred}
    __h_keep("sp", s)
    __h_phase("train2")
    s.train()
    __h_keep("s2", s)
    __h_phase("predict2")
{pred}
    __h_keep("s", s)
"""

# silent from the start
QUIET_LIFE = """
from smt.{mod} import {cls}
def main():
    s = {cls}({ctor})
    __h_phase("quiet:data")
{data}
    __h_phase("quiet:train")
    s.train()
    __h_phase("quiet:predict")
{pred}
    s.train()
    __h_keep("s", s)
"""
# silent predictions after a training with messages, then silent altogether
HUSH_LIFE = """
from smt.{mod} import {cls}
def main():
    s = {cls}({ctor})
{data}
    __h_phase("train")
    s.train()
    s.options["print_prediction"] = False
    __h_phase("quiet:print_prediction")
{pred}
    __h_phase("quiet:print_global")
    s.options["print_prediction"] = True
    s.options["print_global"] = False
{pred}
    __h_keep("s", s)
"""

# one admissible value of one option: training and predicting must be possible
VALUE_LIFE = """
from smt.{mod} import {cls}
def main():
    s = {cls}({opt}={val})
    __h_phase("data")
{data}
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
    __h_phase("")
    __h_keep("s", s)
"""
VALUE_SAMPLING = """
from {mod} import {cls}
def main():
    s = {cls}(xlimits=__h_arg("xlimits"), {opt}={val})
    __h_phase("call1")
    __h_keep("r_1", s(__h_count("nt")))
    __h_keep("s", s)
"""
VALUE_PROBLEM = """
from {mod} import {cls}
{imports}
def main():
    s = {cls}({ctor})
    {set}
    __h_phase("call1")
    __h_keep("r_1", s(__h_arg("x")))
    __h_keep("r_2", s(__h_arg("x"), 0))
    __h_keep("s", s)
"""

DATA = """
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.update_training_values(__h_arg("yt2"))
"""
DATA_D = DATA + """
    for kx in range(__h_any()):
        s.set_training_derivatives(__h_arg("xdt"), __h_arg("dyt"), kx)
"""
DATA_GE = DATA + """
    for kx in range(__h_any()):
        s.set_training_derivatives(__h_arg("xdt"), __h_arg("dyt"), kx)
"""
DATA_MF = """
    s.set_training_values(__h_arg("xlf"), __h_arg("ylf"), name=0)
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
"""


class Scenario:
    def __init__(self, name, src, config=None, args=None, roots=("s",), meta=None, override=None):
        self.override = override
        self.name, self.src, self.config, self.args, self.roots, self.meta = name, src, config or {}, args or {}, roots, meta or {}


def surrogate_classes(ix):
    base = ix.cls("SurrogateModel")
    out = []
    for c in ix.subclasses(base):
        if c.module.synthetic or c.module.name.endswith("surrogate_model"):
            continue
        if c.name in ("MixedIntegerSurrogateModel", "MOESurrogateModel", "RMTS"):
            continue
        if c.abstract_methods() or c.lookup_attr("name") is None:
            continue
        if c.name == "KrgBased" or (c.lookup("_initialize") is None):
            continue
        out.append(c)
    return out


def advertised(ix, c, what):
    """does the class (or an ancestor) advertise this capability in a method body"""
    import ast

    for k in c.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and n.targets[0].slice.value == what:
                    if isinstance(n.value, ast.Constant) and n.value.value is True:
                        return True
    return False


def surr_scenario(ix, c, name=None, config=None, ctor="", **meta):
    pred = PRED.format(o="s")
    mf = ix.has_cls("MFK") and c.is_subclass_of(ix.cls("MFK"))
    data = DATA_MF if mf else (DATA_D if advertised(ix, c, "training_derivatives") else DATA)
    src = SURR_LIFE.format(mod=c.module.name[4:], cls=c.name, ctor=ctor, data=data, pred=pred)
    return Scenario(name or "surrogate:" + c.name, src, config, ARGS, ("s",), dict(kind="surrogate", cls=c.name, **meta))


def admissible(opt, d):
    """the listed values of an option, or both values of a flag"""
    vals = [x for x in d["values"] or () if x is not None]
    c = d["default"].single_const() if not vals else None
    if isinstance(c, bool) and not opt.startswith("print_") and opt not in ("is_print", "verbose"):
        vals = [False, True]
    return sorted(vals, key=repr)


def one_input(args):
    return {k: dict(d, shape=tuple(sym_subst(x, "nx", ONE) for x in d["shape"])) for k, d in args.items()}


def run_scenario(ix, sc, budget=400000):
    r = Run(ix, sc.src, config=sc.config, args=sc.args, budget=budget, override=sc.override, hooks={"printer": bool(sc.meta.get("printer")), "trace": sc.meta.get("kind") == "value", "real_options": sc.meta.get("kind") == "options", **({"units": True} if sc.meta.get("kind") in ("units", "limits") else {}), **({"several": True} if sc.meta.get("several") else {})})
    r.scenario = sc
    return r

# ------------------------------------------------------------------------------------ the suite
KRIGING_OPTS = ("eval_noise", "use_het_noise")


def kriging_configs(ix, c):
    out = []
    for en in (False, True):
        for uh in (False, True):
            out.append(("noise=%d,het=%d" % (en, uh), {"eval_noise": const(en), "use_het_noise": const(uh)}))
    return out


def rmts_configs(ix, c, thorough=False):
    """the base configuration, then each solver and each line search on its own"""
    base = {"solver": DEFAULT, "derivative_solver": DEFAULT, "line_search": DEFAULT}
    out = [("base", dict(base))]
    for nm in declared(ix, c, "solver"):
        out.append(("solver=" + nm, dict(base, solver=const(nm), derivative_solver=const(nm))))
    for nm in declared(ix, c, "line_search"):
        out.append(("line_search=" + nm, dict(base, line_search=const(nm), **({} if thorough else {"solver": const("lu"), "derivative_solver": const("lu")}))))
    return out


_DECL = {}


def declarations(ix, c, ctor="", imports=""):
    """the option declarations of a class: name -> (default, admissible constants or None, type names)"""
    if c.name not in _DECL:
        r = Run(ix, "from %s import %s\n%s\ndef main():\n    s = %s(%s)\n" % (c.module.name, c.name, imports, c.name, ctor), config={"*": DEFAULT})
        _DECL[c.name] = dict(r.I.decls)
    return _DECL[c.name]


def declared(ix, c, opt):
    """the string values the declaration of an option admits"""
    d = declarations(ix, c).get(opt)
    if d is None or not d["values"]:
        raise AnalysisBroken("option %s of %s has no declared values" % (opt, c.name))
    return sorted(x for x in d["values"] if isinstance(x, str))


SAMPLING = """
from {mod} import {cls}
def main():
    __h_phase("data")
    s = {cls}(xlimits=__h_arg("xlimits"))
    __h_keep("s0", s)
    __h_phase("call1")
    __h_keep("r_1", s(__h_count("nt")))
    __h_keep("s1", s)
    __h_phase("call2")
    __h_keep("r_2", s(__h_count("nt")))
    __h_keep("s", s)
"""

PROBLEM = """
from {mod} import {cls}
{imports}
def main():
    __h_phase("data")
    s = {cls}({ctor})
    __h_keep("s0", s)
    __h_phase("call1")
    __h_keep("r_1", s(__h_arg("x")))
    __h_phase("call2")
    try:
        __h_keep("r_2", s(__h_arg("x"), __h_any()))
    except Exception:
        pass
    __h_keep("s", s)
"""

PROBLEM_REJECT = """
from {mod} import {cls}
{imports}
def main():
    __h_phase("data")
    s = {cls}({ctor})
    __h_keep("s1", s)
{bad}
    __h_keep("s", s)
"""

EGO_SRC = """
from smt.applications.ego import EGO
from smt.surrogate_models.krg import KRG
def main():
    __h_phase("data")
    s = EGO(surrogate=KRG(print_global=False), xlimits=__h_arg("xlimits"){extra})
    __h_keep("s0", s)
    __h_phase("call1")
    __h_keep("r_1", s.optimize(__h_user("fun")))
    __h_keep("s1", s)
    __h_phase("call2")
    __h_keep("r_2", s.optimize(__h_user("fun")))
    __h_keep("s", s)
"""

MOE_SRC = """
from smt.applications.moe import MOE
def main():
    s = MOE()
    __h_keep("s0", s)
    __h_phase("data")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_keep("sdata", s)
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
{pred}
    __h_phase("train2")
    s.train()
    __h_phase("predict2")
{pred}
    __h_keep("s", s)
"""

MOESM_SRC = """
from smt.applications.moe import MOESurrogateModel
def main():
    s = MOESurrogateModel()
    __h_keep("s0", s)
    __h_phase("data")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_keep("sdata", s)
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
{pred}
    __h_phase("train2")
    s.train()
    __h_phase("predict2")
{pred}
    __h_keep("s", s)
"""

VFM_SRC = """
from smt.applications.vfm import VFM
from smt.surrogate_models.ls import LS
from smt.surrogate_models.qp import QP
from smt.surrogate_models.krg import KRG
def main():
    __h_phase("data")
    lf = {{"print_global": False}}
    br = {{"print_global": False}}
    __h_own(lf, "options_LF")
    __h_own(br, "options_bridge")
    s = VFM(type_bridge={bridge}, name_model_LF={lf}, name_model_bridge={br}, X_LF=__h_arg("xlf"), y_LF=__h_arg("ylf"),
            X_HF=__h_arg("xt"), y_HF=__h_arg("yt"), options_LF=lf, options_bridge=br)
    __h_keep("s0", s)
    __h_phase("train1")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
    __h_keep("s1", s)
    __h_phase("predict")
    __h_keep("r_values2", s.predict_values(__h_arg("x")))
    __h_keep("r_derivatives", s.predict_derivatives(__h_arg("x"), __h_any()))
    __h_keep("s", s)
"""

NESTED_SRC = """
from smt.applications.mfk import NestedLHS
def main():
    __h_phase("data")
    s = NestedLHS(nlevel=__h_count("nl"), xlimits=__h_arg("xlimits"))
    __h_keep("s0", s)
    __h_phase("call1")
    __h_keep("r_1", s(__h_count("nt")))
    __h_phase("call2")
    __h_keep("r_2", s(__h_count("nt")))
    __h_keep("s", s)
"""

MIXINT_SRC = """
from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT, ENUM
from smt.surrogate_models.krg import KRG
from smt.surrogate_models.qp import QP
from smt.sampling_methods.lhs import LHS
def main():
    __h_phase("data")
    xtypes = [INT, FLOAT, (ENUM, 3)]
    xlimits = [[0, 5], [0.0, 4.0], ["blue", "red", "green"]]
    __h_own(xtypes, "xtypes")
    __h_own(xlimits, "xlimits")
    c = MixedIntegerContext(xtypes, xlimits{folded})
    inner = {inner}
    s = c.build_surrogate_model(inner)
    __h_keep("s0", s)
    __h_keep("c0", c)
    d = c.build_sampling_method(LHS, criterion="ese")
    __h_phase("call1")
    __h_keep("r_doe", d(__h_count("nt")))
    __h_phase("call2")
    __h_keep("r_doe2", d(__h_count("nt")))
    __h_phase("data")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.update_training_values(__h_arg("yt2"))
    __h_keep("sdata", s)
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
{pred}
    __h_phase("predict")
    __h_keep("r_fold", c.fold_with_enum_index(__h_arg("x")))
    __h_keep("r_unfold", c.unfold_with_enum_mask(__h_arg("x")))
    __h_keep("r_cast", c.cast_to_discrete_values(__h_arg("x")))
    __h_keep("r_mixed", c.cast_to_mixed_integer(__h_arg("x1")))
    __h_keep("r_enum", c.cast_to_enum_value(2, __h_arg("x1")))
    __h_keep("r_lims", c.get_unfolded_xlimits())
    __h_keep("r_dim", c.get_unfolded_dimension())
    __h_phase("train2")
    s.train()
    __h_phase("predict2")
{pred}
    __h_keep("s", s)
    __h_keep("c", c)
"""

RMS_SRC = """
from smt.surrogate_models.krg import KRG
from smt.utils.misc import compute_rms_error
def main():
    s = KRG(print_global=False)
    __h_phase("data")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
    __h_keep("r_rms", compute_rms_error(s, __h_arg("x"), __h_arg("y")))
    __h_keep("r_rms_k", compute_rms_error(s, __h_arg("x"), __h_arg("y"), __h_any()))
    __h_keep("r_rms_t", compute_rms_error(s))
    __h_keep("s", s)
"""

SOLVER_SRC = """
from smt.utils.linear_solvers import get_solver
from smt.utils.printer import Printer
import scipy.sparse
def main():
    __h_phase("data")
    s = get_solver({name})
    mtx = scipy.sparse.csc_matrix(__h_arg("mtx"))
    rhs = __h_arg("rhs")
    __h_keep("s0", s)
    __h_phase("call1")
    s._setup(mtx, Printer())
    __h_keep("r_1", s._solve(rhs))
    __h_keep("s1", s)
    __h_phase("call2")
    __h_keep("r_2", s._solve(rhs))
    __h_keep("s", s)
"""

DEF_ALL = {"KRG.*": DEFAULT, "KrgBased.*": DEFAULT, "KPLS.*": DEFAULT, "KPLSK.*": DEFAULT, "MGP.*": DEFAULT, "SurrogateModel.*": DEFAULT,
           "RMTS.*": DEFAULT, "RMTB.*": DEFAULT, "RMTC.*": DEFAULT, "RBF.*": DEFAULT, "IDW.*": DEFAULT, "LS.*": DEFAULT, "QP.*": DEFAULT, "GEKPLS.*": DEFAULT,
           "LHS.*": DEFAULT, "SamplingMethod.*": DEFAULT}


def public_subclasses(ix, base, pkg):
    out = []
    for c in ix.subclasses(ix.cls(base)):
        if c.module.synthetic or not c.module.name.startswith(pkg):
            continue
        if c.abstract_methods():
            continue
        out.append(c)
    return out


PROBLEM_CTOR = {
    "ReducedProblem": ("from smt.problems.welded_beam import WeldedBeam", "WeldedBeam(ndim=__h_count('ndim')), __h_any(), __h_any()"),
    "NdimRobotArm": ("", "__h_count('ndim'), __h_any()"),
    "NdimRosenbrock": ("", "__h_count('ndim'), __h_any()"),
    "NdimCantileverBeam": ("", "__h_count('ndim'), __h_any()"),
    "NdimStepFunction": ("", "__h_count('ndim'), __h_any()"),
}


# ---- the contract of the options
OPTIONS_LIFE = """
from {mod} import {cls}
{imports}
class Alien:
    pass
def main():
    __h_phase("make")
    s = {cls}({ctor})
    __h_keep("made", s)
    v = {cls}({ctor})
{first}
{bad}
    __h_phase("accept")
{good}
{old}
    u = {cls}({ctor})
{last}
"""
GOOD_CALLS = """
    try:
        t{i} = {cls}({ctor}{opt}={val})
        __h_keep("get_c{i}", t{i}.options["{opt}"])
    except Exception:
        pass
    try:
        s.options["{opt}"] = {val}
        __h_keep("get_s{i}", s.options["{opt}"])
        s.options.update({{"{opt}": {val}}})
        __h_keep("get_u{i}", s.options["{opt}"])
    except Exception:
        pass
"""
OPTDICT_LIFE = """
from smt.utils.options_dictionary import OptionsDictionary
class Alien:
    pass
def main():
    __h_phase("make")
    s = OptionsDictionary()
    s.declare("listed", "a", values=("a", "b"))
    s.declare("typed", 1, types=(int, float))
    s.declare("single", 1.5, types=float)
    s.declare("either", "a", values=("a", None), types=int)
    s.declare("free", "q")
    s.declare("unset")
    s.declare("empty", values=("a", "b"), types=float)
    __h_keep("made", s)
{bad}
    __h_phase("accept")
{good}
    c = s.clone()
    __h_keep("get_clone", c["listed"])
    c["listed"] = "a"
    s["typed"] = 7
    c.declare("late", 1)
    s.declare("later", 1)
    __h_keep("get_apart1", s["listed"])
    __h_keep("get_apart2", c["typed"])
    __h_keep("get_in1", "late" in c)
    __h_keep("get_in2", "late" in s)
    __h_keep("get_in3", s.is_declared("late"))
    __h_keep("get_in4", c.is_declared("late"))
    __h_keep("get_in5", "later" in c)
    s.declare("listed", "z", values=("z", "y"))
    __h_keep("get_again", s["listed"])
{bad2}
"""
SAMPLE = {"bool": ("True", "False"), "int": ("3",), "float": ("0.25",), "str": ("'some text'",), "list": ("[0.5]",), "tuple": ("(0.5,)",)}


def option_calls(ix, c, ctor, decl, imports=""):
    """(rejected calls, accepted values) of a class, from what its declarations say"""
    sep = ctor + ", " if ctor else ""
    new = lambda o, v: "%s(%s%s=%s)" % (c.name, sep, o, v)
    bad = [(new("no_such_option", "1"), "an option that is not declared, given at construction"), ('s.options["no_such_option"] = 1', "the assignment of an option that is not declared"),
           ('s.options.update({"no_such_option": 1})', "the update of an option that is not declared")]
    good = []
    given = [k.arg for k in ast.parse("f(%s)" % ctor, mode="eval").body.keywords]
    fn = c.lookup("__init__")
    for o, d in sorted(decl.items(), key=lambda x: str(x[0])):
        if not isinstance(o, str) or d["owner"] not in [k.name for k in c.mro()]:
            continue
        types = d["types"]
        if types is not None or d["values"] is not None:
            if not (types and ("builtin", "object") in types):
                for v, w in (("Alien()", "an object of a foreign class"),):
                    bad.append(('s.options["%s"] = %s' % (o, v), "%s as the value of option %s" % (w, o)))
                    if o not in given:
                        bad.append((new(o, v), "%s as the value of option %s at construction" % (w, o)))
            if types is None or not types & {("builtin", "str"), ("builtin", "object")}:
                bad.append(('s.options["%s"] = "no such value"' % o, "an unlisted text as the value of option %s" % o))
        vals = [repr(v) for v in sorted(d["values"] or (), key=repr)]
        if o not in given:
            for t in sorted(str(r[1]) for r in types or () if r[0] == "builtin"):
                if not d["values"]:
                    vals += SAMPLE.get(t, ())
            must = bool(d["values"]) or types == frozenset([("builtin", "bool")])
            good += [(o, v, must) for v in vals]
    return bad, good


OPTDICT_BAD = [('s["%s"] = %s' % (o, v), "%s as a value of %s" % (v, w)) for o, w, vs in (
    ("listed", "an option with listed values", ("Alien()", "'c'", "1", "None")), ("typed", "an option with listed types", ("Alien()", "'x'", "[1]", "None")),
    ("single", "an option with one type", ("Alien()", "'x'", "1")), ("either", "an option with listed values and types", ("Alien()", "'b'", "1.5")),
    ("empty", "an option without a default", ("Alien()", "'c'", "[1]")), ("missing", "an option that is not declared", ("1", "None"))) for v in vs]
OPTDICT_BAD += [('s.update({"%s": %s})' % (o, v), "%s as a value of %s in an update" % (v, o)) for o, v in (("listed", "'c'"), ("typed", "'x'"), ("missing", "1"))]
OPTDICT_BAD += [('s.declare("wrong%d", %s)' % (i, d), "the declaration of an option whose default it does not admit (%s)" % d) for i, d in enumerate(('"c", values=("a", "b")', '"c", types=int', '"c", values=("a", "b"), types=float', '1, values=("a", "b")'))]
OPTDICT_GOOD = [("listed", "'b'"), ("listed", "'a'"), ("typed", "3"), ("typed", "0.5"), ("typed", "True"), ("single", "0.0"), ("either", "None"), ("either", "4"), ("either", "'a'"), ("free", "None"), ("free", "12"), ("free", "'c'"), ("unset", "0"), ("empty", "'b'"), ("empty", "2.5")]
OPTDICT_GOOD = [g + (True,) for g in OPTDICT_GOOD]
OPTDICT_BAD2 = [('s["late"] = 2', "an option declared only in a copy"), ('c["later"] = 2', "an option declared only in the original"), ('c["listed"] = "c"', "an unlisted value given to a copy"), ('s["listed"] = "a"', "a value listed only in an earlier declaration")]
OPTDICT_END = {"clone": "b", "apart1": "b", "apart2": 5, "in1": True, "in2": False, "in3": False, "in4": True, "in5": False, "again": "z", "def_typed": 1, "def_unset": None, "def_in1": True, "def_in2": False, "def_in3": True}


def optdict_scenario():
    good = "".join('    s["%s"] = %s\n    __h_keep("get_s%d", s["%s"])\n    s.update({"%s": %s})\n    __h_keep("get_u%d", s["%s"])\n' % (o, v, i, o, o, v, i, o) for i, (o, v, _) in enumerate(OPTDICT_GOOD))
    good = '    __h_keep("get_def_in1", "unset" in s)\n    __h_keep("get_def_in2", "missing" in s)\n    __h_keep("get_def_in3", s.is_declared("unset"))\n    __h_keep("get_def_typed", s["typed"])\n    __h_keep("get_def_unset", s["unset"])\n' + good + '    s["listed"] = "b"\n    s["typed"] = 5\n'
    n = len(OPTDICT_BAD)
    src = OPTDICT_LIFE.format(bad=bad_calls(OPTDICT_BAD), good=good, bad2="".join(BAD_CALLS.format(call=c, i=n + i) for i, (c, _) in enumerate(OPTDICT_BAD2)))
    return Scenario("options:OptionsDictionary", src, {}, ARGS, ("s",), dict(kind="options", cls="OptionsDictionary", calls=OPTDICT_BAD + OPTDICT_BAD2, good=OPTDICT_GOOD, end=OPTDICT_END))


def options_scenario(ix, c, ctor="", decl=None, imports="", mod=None):
    bad, good = option_calls(ix, c, ctor, decl if decl is not None else declarations(ix, c, ctor, imports))
    g = "".join(GOOD_CALLS.format(i=i, cls=c.name, ctor=ctor + ", " if ctor else "", opt=o, val=v) for i, (o, v, _) in enumerate(good))
    names = sorted({o for o, _, _ in good})
    first = "".join('    __h_keep("first_%d", v.options["%s"])\n' % (i, o) for i, o in enumerate(names))
    old = "".join('    __h_keep("old_%d", v.options["%s"])\n' % (i, o) for i, o in enumerate(names))
    last = "".join('    __h_keep("new_%d", u.options["%s"])\n' % (i, o) for i, o in enumerate(names))
    src = OPTIONS_LIFE.format(first=first, old=old, last=last, mod=mod or c.module.name, cls=c.name, imports=imports, ctor=ctor, bad=bad_calls(bad), good=g or "    pass")
    return Scenario("options:" + c.name, src, {"*": DEFAULT, "ndim": V(prim=True, a=Abs(None, 1, INF, E0), dim=NX)}, ARGS, ("s",), dict(kind="options", cls=c.name, calls=bad, good=good, names=names))


def numbers_x(args):
    """the same data with inputs that are pure numbers: only the unit of the outputs is followed"""
    out = {}
    for k, d in args.items():
        u = d["a"].unit
        if u not in (None, UT):
            d = dict(d, a=Abs(U(0, u[1], 0, 0), d["a"].lo, d["a"].hi, d["a"].tags))
        out[k] = d
    return out


def units_scenarios(ix):
    kb, rm = ix.cls("KrgBased"), ix.cls("RMTS")
    for c in surrogate_classes(ix):
        if c.is_subclass_of(rm):
            continue  # their objective adds different powers of the error: not homogeneous by design
        mf = ix.has_cls("MFK") and c.is_subclass_of(ix.cls("MFK"))
        data = DATA_MF if mf else (DATA_D if advertised(ix, c, "training_derivatives") else DATA)
        src = SURR_LIFE.format(mod=c.module.name[4:], cls=c.name, ctor='xlimits=__h_arg("xlimits")' if "xlimits" in declarations(ix, c) else "", data=data, pred=PRED.format(o="s"))
        for nm, cfg in kriging_configs(ix, c) if c.is_subclass_of(kb) else [("default", {})]:
            cfg = dict({"*": DEFAULT, "poly": ANY, "corr": ANY}, **cfg)
            for m, args in (("xy", ARGS), ("y", numbers_x(ARGS))):
                yield Scenario("units:%s[%s,%s]" % (c.name, nm, m), src, cfg, args, ("s",), dict(kind="units", cls=c.name, mode=m))
    rest = [s for s in suite(ix, ["sampling", "ego", "vfm", "mixint"]) if "mixed" not in s.name and "[default]" not in s.name]
    rest.append(Scenario("utils:compute_rms_error", "".join(l + "\n" for l in RMS_SRC.splitlines() if "r_rms_k" not in l), DEF_ALL, ARGS, ("s",), dict(kind="utils", cls="compute_rms_error")))
    for s in rest:
        cfg = dict(s.config or {}, **{"*": DEFAULT, "poly": ANY, "corr": ANY})
        for m in ("x",) if s.name.startswith("sampling") else ("xy", "y"):
            args = numbers_x(s.args) if m == "y" else s.args
            yield Scenario("units:%s[%s]" % (s.name, m), s.src, cfg, args, s.roots, dict(kind="units", cls=s.meta["cls"], mode=m, of=s.meta["kind"]), s.override)


def limits_scenarios(ix):
    """lives in which it is followed where points lie with respect to the limits that the user gave"""
    args = dict(ARGS, xlimits=ARGS["limits"], xdoe=dict(ARGS["xdoe"], a=ARGS["xdoe"]["a"].with_(pos=P_IN)))
    for s in suite(ix, ["sampling", "ego"]):
        cfg = dict(s.config or {}, **({"*": DEFAULT, "poly": ANY, "corr": ANY} if s.meta["kind"] == "ego" else {}))
        for k in ("criterion", "qEI", "enable_tunneling"):
            if s.meta["kind"] == "ego" and k != "enable_tunneling":
                cfg[k] = ANY
        yield Scenario("limits:" + s.name, s.src, cfg, args, s.roots, dict(kind="limits", cls=s.meta["cls"], of=s.meta["kind"]), s.override)


def suite(ix, kinds=None, thorough=False):
    out = []

    def want(k):
        return kinds is None or k in kinds

    if want("surrogate"):
        rm = ix.cls("RMTS")
        kb = ix.cls("KrgBased")
        for c in surrogate_classes(ix):
            if c.is_subclass_of(kb):
                cfgs = kriging_configs(ix, c)
            elif c.is_subclass_of(rm):
                cfgs = rmts_configs(ix, c, thorough)
            else:
                cfgs = [("any", {})]
            for nm, cfg in cfgs:
                out.append(surr_scenario(ix, c, "surrogate:%s[%s]" % (c.name, nm), cfg, family="krg" if c.is_subclass_of(kb) else "rmts" if c.is_subclass_of(rm) else "other"))
    if want("reject"):
        rm = ix.cls("RMTS")
        for c in surrogate_classes(ix):
            mf = ix.has_cls("MFK") and c.is_subclass_of(ix.cls("MFK"))
            data = DATA_MF if mf else (DATA_D if advertised(ix, c, "training_derivatives") else DATA)
            calls = surrogate_bad_calls(mf)
            src = REJECT_LIFE.format(mod=c.module.name[4:], cls=c.name, data=data, bad=bad_calls(calls))
            out.append(Scenario("reject:" + c.name, src, {"*": DEFAULT}, ARGS, ("s",), dict(kind="reject", cls=c.name, calls=calls, several=True)))
            out.append(Scenario("reject:%s[one input]" % c.name, src, {"*": DEFAULT}, one_input(ARGS), ("s",), dict(kind="reject", cls=c.name, calls=calls)))
        for c in public_subclasses(ix, "Problem", "smt.problems"):
            if c.name == "Problem":
                continue
            imp, ctor = PROBLEM_CTOR.get(c.name, ("", ""))
            calls = [("s(%s%s)" % (x, k), "%spoints of the wrong form (%s)" % ("derivatives at " if k else "", w)) for w, x in BAD_POINTS for k in ("", ", 0")]
            calls += [('s(__h_arg("x"), -1)', "the derivative for a negative variable index"), ('s(__h_arg("x"), 0.5)', "the derivative for a variable index that is no integer")]
            out.append(Scenario("reject:" + c.name, PROBLEM_REJECT.format(mod=c.module.name, cls=c.name, imports=imp, ctor=ctor, bad=bad_calls(calls)), {"ndim": V(prim=True, a=Abs(None, 1, INF, E0), dim=NX), "return_complex": DEFAULT}, ARGS, ("s",), dict(kind="reject", cls=c.name, calls=calls)))
    if want("value"):
        rm = ix.cls("RMTS")
        for c in surrogate_classes(ix):
            mf = ix.has_cls("MFK") and c.is_subclass_of(ix.cls("MFK"))
            data = DATA_MF if mf else (DATA_D if advertised(ix, c, "training_derivatives") else DATA)
            for opt, d in sorted(declarations(ix, c).items()):
                for v in admissible(opt, d):
                    base = {"*": DEFAULT}
                    if c.is_subclass_of(rm) and opt in ("solver", "derivative_solver", "line_search"):
                        if c.name != "RMTC" or opt == "derivative_solver":
                            continue
                        base = {"*": DEFAULT, "solver": const("lu"), "derivative_solver": const("lu")}
                    if opt in ("optim_var", "use_het_noise"):
                        base["eval_noise"] = const(True)
                    base.pop(opt, None)
                    src = VALUE_LIFE.format(mod=c.module.name[4:], cls=c.name, opt=opt, val=repr(v), data=data)
                    out.append(Scenario("value:%s.%s=%r" % (c.name, opt, v), src, base, ARGS, ("s",), dict(kind="value", cls=c.name, option=opt, value=v)))
        for c in public_subclasses(ix, "SamplingMethod", "smt.sampling_methods"):
            for opt, d in sorted(declarations(ix, c, "xlimits=None").items()):
                for v in admissible(opt, d):
                    out.append(Scenario("value:%s.%s=%r" % (c.name, opt, v), VALUE_SAMPLING.format(mod=c.module.name, cls=c.name, opt=opt, val=repr(v)), {"*": DEFAULT}, ARGS, ("s",), dict(kind="value", cls=c.name, option=opt, value=v)))
        for c in public_subclasses(ix, "Problem", "smt.problems"):
            imp, ctor = PROBLEM_CTOR.get(c.name, ("", ""))
            for opt, d in sorted(declarations(ix, c, ctor, imp).items()):
                for v in admissible(opt, d) if d["owner"] in [k.name for k in c.mro()] else ():
                    src = VALUE_PROBLEM.format(mod=c.module.name, cls=c.name, imports=imp, ctor=ctor if ctor else "%s=%r" % (opt, v), set='s.options["%s"] = %r' % (opt, v) if ctor else "pass")
                    cfg = {"*": DEFAULT, "ndim": V(prim=True, a=Abs(None, 1, INF, E0), dim=NX)}
                    out.append(Scenario("value:%s.%s=%r" % (c.name, opt, v), src, cfg, ARGS, ("s",), dict(kind="value", cls=c.name, option=opt, value=v)))
        for opt, d in sorted(declarations(ix, ix.cls("EGO")).items()):
            for v in admissible(opt, d) if d["owner"] == "EGO" else ():
                extra = ", %s=%r" % (opt, v)
                if opt == "qEI":
                    extra += ', n_parallel=__h_count("np")'
                out.append(Scenario("value:EGO.%s=%r" % (opt, v), EGO_SRC.format(extra=extra), {"*": DEFAULT}, ARGS, ("s",), dict(kind="value", cls="EGO", option=opt, value=v)))
        for opt, d in sorted(declarations(ix, ix.cls("MOE")).items()):
            for v in admissible(opt, d) if d["owner"] == "MOE" else ():
                src = MOE_SRC.format(pred=PREDV.format(o="s")).replace("MOE()", "MOE(%s=%r)" % (opt, v))
                ov = {("SurrogateBasedApplication", "_surrogate_type"): '{"RBF": RBF, "QP": QP, "KRG": KRG}'}
                out.append(Scenario("value:MOE.%s=%r" % (opt, v), src, DEF_ALL, ARGS, ("s",), dict(kind="value", cls="MOE", option=opt, value=v), ov))
    if want("units"):
        out += units_scenarios(ix)
    if want("limits"):
        out += limits_scenarios(ix)
    if want("options"):
        out.append(optdict_scenario())
        for c in surrogate_classes(ix):
            out.append(options_scenario(ix, c))
        for c in public_subclasses(ix, "SamplingMethod", "smt.sampling_methods"):
            out.append(options_scenario(ix, c, 'xlimits=__h_arg("xlimits")'))
        for c in public_subclasses(ix, "Problem", "smt.problems"):
            imp, ctor = PROBLEM_CTOR.get(c.name, ("", ""))
            if not ctor:
                out.append(options_scenario(ix, c, ctor, imports=imp))
        for nm in ("EGO", "MOE", "VFM"):
            out.append(options_scenario(ix, ix.cls(nm)))
        for c in public_subclasses(ix, "LinearSolver", "smt.utils"):
            if c.lookup("_initialize") is not None and not c.abstract_methods():
                out.append(options_scenario(ix, c))
    if want("quiet"):
        kb, rm = ix.cls("KrgBased"), ix.cls("RMTS")
        for c in surrogate_classes(ix):
            mf = ix.has_cls("MFK") and c.is_subclass_of(ix.cls("MFK"))
            data = DATA_MF if mf else (DATA_D if advertised(ix, c, "training_derivatives") else DATA)
            cfg = {"eval_noise": const(True), "use_het_noise": const(True)} if c.is_subclass_of(kb) else {}
            if c.is_subclass_of(rm):
                cfg = rmts_configs(ix, c)[0][1]
            lives = [("silent", QUIET_LIFE, "print_global=False", cfg), ("hushed", HUSH_LIFE, "", cfg)]
            if c.name == "RMTC":
                lives += [("silent," + nm, QUIET_LIFE, "print_global=False", cf) for nm, cf in rmts_configs(ix, c)[1:] if nm.startswith("solver=")]
            for nm, life, ctor, cf in lives:
                src = life.format(mod=c.module.name[4:], cls=c.name, ctor=ctor, data=data, pred=PRED.format(o="s"))
                out.append(Scenario("quiet:%s[%s]" % (c.name, nm), src, cf, ARGS, ("s",), dict(kind="quiet", cls=c.name, printer=True)))
        for inner in ("KRG(print_global=False)", "QP(print_global=False)"):
            src = MIXINT_SRC.format(folded="", inner=inner, pred=PREDV.format(o="s")).replace('__h_phase("', '__h_phase("quiet:')
            out.append(Scenario("quiet:MixedInteger-%s" % inner[:inner.index("(")], src, DEF_ALL, ARGS, ("s", "c"), dict(kind="quiet", cls="MixedIntegerSurrogateModel", printer=True)))
    if want("seeded"):
        for nm, rs in (("seed", "7"), ("generator", "np.random.RandomState(7)")):
            for c in public_subclasses(ix, "SamplingMethod", "smt.sampling_methods"):
                if "random_state" in declarations(ix, c):
                    src = SAMPLING.replace("xlimits=__h_arg", "random_state=%s, xlimits=__h_arg" % rs).replace("def main", "import numpy as np\ndef main")
                    out.append(Scenario("seeded:%s[%s]" % (c.name, nm), src.format(mod=c.module.name, cls=c.name), {}, ARGS, ("s",), dict(kind="seeded", cls=c.name, option="random_state")))
            for v, extra in (("continuous", ', xtypes=None, xdoe=None, ydoe=None, n_doe=__h_count("nd")'), ("mixed", ', xtypes=["float_type", "int_type", ("enum_type", 2)], xdoe=None, ydoe=None, n_doe=__h_count("nd")')):
                src = EGO_SRC.format(extra=extra + ", random_state=" + rs).replace("def main", "import numpy as np\ndef main")
                out.append(Scenario("seeded:EGO[%s,%s]" % (v, nm), src, DEF_ALL, ARGS, ("s",), dict(kind="seeded", cls="EGO", option="random_state", apart="smt.surrogate_models")))
        for c in surrogate_classes(ix):
            for opt in ("seed", "random_state"):
                if opt in declarations(ix, c):
                    sc = surr_scenario(ix, c, "seeded:%s" % c.name, {opt: const(7)}, option=opt)
                    sc.meta["kind"] = "seeded"
                    out.append(sc)
    if want("sampling"):
        for c in public_subclasses(ix, "SamplingMethod", "smt.sampling_methods"):
            out.append(Scenario("sampling:" + c.name, SAMPLING.format(mod=c.module.name, cls=c.name), {}, ARGS, ("s",), dict(kind="sampling", cls=c.name, pure=())))
        for c in public_subclasses(ix, "SamplingMethod", "smt.sampling_methods"):
            out.append(Scenario("sampling:%s[default]" % c.name, SAMPLING.format(mod=c.module.name, cls=c.name), {"*": DEFAULT}, ARGS, ("s",), dict(kind="sampling", cls=c.name, pure=(), exact=True)))
        out.append(Scenario("sampling:NestedLHS", NESTED_SRC, {}, ARGS, ("s",), dict(kind="sampling", cls="NestedLHS", pure=())))
    if want("problem"):
        for c in public_subclasses(ix, "Problem", "smt.problems"):
            if c.name == "Problem":
                continue
            imp, ctor = PROBLEM_CTOR.get(c.name, ("", ""))
            out.append(Scenario("problem:" + c.name, PROBLEM.format(mod=c.module.name, cls=c.name, imports=imp, ctor=ctor), {"ndim": PRIM}, ARGS, ("s",), dict(kind="problem", cls=c.name, pure=("call1", "call2"))))
    if want("ego"):
        for nm, extra in (("continuous", ', xtypes=None, xdoe=None, ydoe=None, n_doe=__h_count("nd")'), ("given-doe", ', xtypes=None, xdoe=__h_arg("xdoe"), ydoe=__h_arg("ydoe")'),
                          ("given-x", ', xtypes=None, xdoe=__h_arg("xdoe"), ydoe=None')):
            out.append(Scenario("ego:" + nm, EGO_SRC.format(extra=extra), DEF_ALL, ARGS, ("s",), dict(kind="ego", cls="EGO")))
        mix = ', xtypes=["float_type", "int_type", ("enum_type", 2)]'
        for nm, extra in (("mixed", mix + ', xdoe=None, ydoe=None, n_doe=__h_count("nd")'), ("mixed-given-doe", mix + ', xdoe=__h_arg("xdoe"), ydoe=__h_arg("ydoe")')):
            out.append(Scenario("ego:" + nm, EGO_SRC.format(extra=extra), DEF_ALL, ARGS, ("s",), dict(kind="ego", cls="EGO")))
    if want("moe"):
        for nm, table in (("KRG-QP", '{"KRG": KRG, "QP": QP}'), ("RBF-LS", '{"RBF": RBF, "LS": LS}')) + ((("RMTB", '{"RMTB": RMTB}'),) if thorough else ()):
            ov = {("SurrogateBasedApplication", "_surrogate_type"): table}
            out.append(Scenario("moe:MOE[%s]" % nm, MOE_SRC.format(pred=PREDV.format(o="s")), DEF_ALL, ARGS, ("s",), dict(kind="moe", cls="MOE"), ov))
            out.append(Scenario("moe:MOESurrogateModel[%s]" % nm, MOESM_SRC.format(pred=PREDV.format(o="s")), DEF_ALL, ARGS, ("s",), dict(kind="moe", cls="MOESurrogateModel"), ov))
    if want("vfm"):
        for lf, br in (("KRG", "QP"), ("QP", "LS"), ('"KRG"', '"LS"')):
            for b in ("Additive", "Multiplicative"):
                out.append(Scenario("vfm:%s-%s-%s" % (b, lf.strip('"'), br.strip('"')), VFM_SRC.format(bridge='"%s"' % b, lf=lf, br=br), dict(DEF_ALL), ARGS, ("s",), dict(kind="vfm", cls="VFM")))
    if want("mixint"):
        for nm, folded in (("folded", ""), ("unfolded", ", work_in_folded_space=False")):
            for inner in ("KRG(print_global=False)", "QP(print_global=False)"):
                out.append(Scenario("mixint:%s-%s" % (nm, inner[:inner.index("(")]), MIXINT_SRC.format(folded=folded, inner=inner, pred=PREDV.format(o="s")), DEF_ALL, ARGS, ("s", "c"), dict(kind="mixint", cls="MixedIntegerSurrogateModel")))
    if want("utils"):
        out.append(Scenario("utils:compute_rms_error", RMS_SRC, DEF_ALL, ARGS, ("s",), dict(kind="utils", cls="compute_rms_error")))
        for nm in declared(ix, ix.cls("RMTB"), "solver"):
            out.append(Scenario("utils:solver-" + nm, SOLVER_SRC.format(name=repr(nm)), {}, ARGS, ("s",), dict(kind="solver", cls=nm)))
    return out


if __name__ == "__main__":
    import sys, collections
    ix = Index()
    names = sys.argv[1:]
    for sc in suite(ix):
        if names and not any(sc.name.startswith(x) for x in names):
            continue
        try:
            r = run_scenario(ix, sc)
        except Exception as e:
            import traceback
            print(sc.name, "ERROR", repr(e)); traceback.print_exc(); continue
        print(sc.name, "DEAD" if r.dead else "ok", "%.1fs" % r.wall, r.I.ncalls, len(r.I.funcs_seen), len(r.I.events), sorted(k for k in r.kept if k.startswith("r_")), flush=True)
