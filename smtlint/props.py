"""Which rules decide which property, over which scenarios, with which examples."""
import native
import rules
import scen
import srclint


class Prop:
    def __init__(self, explain, technique, kinds=None, rules=(), static=(), floor=None, canaries=(), canaries_static=(), expect=(), assumes=(), select=None, finish=()):
        self.explain, self.technique, self.kinds, self.rules, self.static = explain, technique, kinds, list(rules), list(static)
        self.floor, self.canaries, self.canaries_static, self.expect, self.assumes = floor or {}, canaries, canaries_static, expect, list(assumes)
        self.finish = list(finish)  # rules over the facts of all scenarios together
        self.select = select or (lambda sc, tier: True)


TRUST = [
    "the effects, aliasing and results of numpy, scipy and scikit-learn functions are those of the models in smtlint/npmodel.py",
    "the C++ kernels (smt/src) have the effects that smtlint/native.py derives from their source; the numbers they compute are not followed",
    "each public object is driven through the lives of smtlint/scen.py with unknown data and unknown admissible option values, except the options a scenario fixes",
    "exceptions end the life; a call the analysis cannot resolve is counted in the evidence and assumed to have no effect on library objects",
]

TECH = "whole-program abstract interpretation of the source (allocation-site heap, context-sensitive, with freshness epochs)"

# ---- a small class with the defects the rules look for
EX_MODEL = '''
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.options.declare("theta0", [1.0], types=(list, np.ndarray))
        self.options.declare("p", 1, types=int)
        self.count = 0
    def set_training_values(self, xt, yt, name=None):
        super().set_training_values(xt, yt, name)
        self.raw = xt
    def _train(self):
        xt, yt = self.training_points[None][0]
        yt -= 1.0
        self.raw *= 2.0
        self.options["p"] = 2
        self.count += 1
        self.sol = np.dot(xt.T, yt) * self.count
    def _predict_values(self, x):
        self.last = x
        self.sol[0] = 0.0
        self.options["p"] = 3
        return self.sol
'''
EX_DRIVER = '''
from smt._example import Bad
def main():
    s = Bad()
    __h_keep("s0", s)
    __h_phase("data")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_keep("sdata", s)
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
    __h_keep("r_values", s._predict_values(__h_arg("x")))
    __h_phase("train2")
    s.train()
    __h_keep("s", s)
'''
EX = (EX_MODEL, EX_DRIVER, dict(kind="surrogate", cls="Bad"), {})

OBJECTS = ("surrogate", "sampling", "problem", "ego", "moe", "vfm", "mixint", "utils")

PROPS = {}

PROPS["C01"] = Prop(
    "Every public object is driven through its life on arrays owned by the caller and on unknown option values; every in-place update the interpreter reaches is an obligation: the object written must not have been allocated by the caller or be an option value.",
    TECH, OBJECTS, [rules.caller_data], floor={"in-place updates examined": 5000}, canaries=[EX], expect=["C01-caller-mutated"], assumes=TRUST)

PROPS["C02"] = Prop(
    "After the training data was given, after training and at the end of each life, the heap reachable from the model is enumerated: no array of the caller may be in it.",
    TECH, ("surrogate", "moe", "mixint"), [rules.private_copies], floor={"objects reachable from a model": 2000}, canaries=[EX], expect=["C02-caller-array-kept"], assumes=TRUST)

PROPS["C03"] = Prop(
    "In the prediction (evaluation) phases of each life every attribute, option, class, module and in-place write is an obligation: what it writes must have been created in that phase; and no result may share memory with the model or with the arguments.",
    TECH, ("surrogate", "problem", "moe", "vfm", "mixint", "utils", "sampling"), [rules.predict_pure],
    floor={"writes examined in prediction phases": 3000, "prediction results examined": 150}, canaries=[EX],
    expect=["C03-predict-mutates", "C03-predict-writes", "C03-predict-writes-option", "C03-result-aliases-state"], assumes=TRUST)

PROPS["C04"] = Prop(
    "Each life trains, predicts and trains again: no attribute read by the second training may hold what the first training or the prediction left there, training must leave every option at the value the user gave, and the stored training data as it is.",
    TECH, ("surrogate", "moe", "vfm", "mixint"), [rules.train_repeatable],
    floor={"attribute reads in the second training": 3000, "options checked after training": 500}, canaries=[EX],
    expect=["C04-state-carried-over", "C04-option-changed", "C04-training-data-changed"], assumes=TRUST)

# ---- C11, C13
EX_PRED = ('''
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.supports["variances"] = True
    def _train(self):
        self.w = 1.0
    def _predict_values(self, x):
        x = x - x.mean(axis=0)
        return x[:, 0]
    def _predict_variances(self, x):
        return np.sum(x * x, axis=1) - 1.0
''', '''
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.train()
    __h_phase("predict")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
    __h_keep("r_variances", s.predict_variances(__h_arg("x")))
''', dict(kind="surrogate", cls="Bad"), {})

PROPS["C11"] = Prop(
    "The value range of every array is tracked (sums of squares, clamps, masks, maxima); the range of each result of predict_variances must start at zero or above.",
    TECH + " with value intervals", ("surrogate", "moe", "mixint"), [rules.variance_nonneg], floor={"predicted variances bounded": 30}, canaries=[EX_PRED],
    expect=["C11-variance-may-be-negative"], assumes=TRUST, select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name)

PROPS["C13"] = Prop(
    "Array shapes are tracked symbolically, so that the axis that runs over the points of a call is known; values that combine different points (sums, means, norms, products over that axis, or one fixed point picked out) are marked, and no result may be computed from a marked value.",
    TECH + " with symbolic shapes and marked values", ("surrogate", "problem", "moe", "vfm", "mixint"), [rules.points_independent], floor={"results traced to their points": 150, "reductions over data of the points": 300},
    canaries=[EX_PRED], expect=["C13-points-combined"], assumes=TRUST + ["predict_variance_derivatives is documented for one point at a time and left out"], select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name)

# ---- C23
EX_SHARED = ('''
import functools
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
STORE = {}
COUNT = 0
class Bad(SurrogateModel):
    name = "Bad"
    hist = []
    total = 0
    def _initialize(self):
        super()._initialize()
    def _train(self, memo={}):
        global COUNT
        self.hist.append(1)
        Bad.total += 1
        COUNT += 1
        memo[1] = 2
        STORE["x"] = 3
    @functools.lru_cache(maxsize=None)
    def _predict_values(self, x):
        type(self).total = 4
        return x[:, 0]
''', '''
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.train()
''', dict(kind="surrogate", cls="Bad"), {})

PROPS["C23"] = Prop(
    "Every in-place update and assignment the interpreter reaches is an obligation: it must not touch a class attribute, a module-level object or variable, or a default argument; and no function stores results in a memo shared by the process.",
    TECH, OBJECTS, [rules.instances_independent], [rules.no_hidden_memo], floor={"writes examined": 8000, "functions examined for shared result stores": 300}, canaries=[EX_SHARED], canaries_static=[(EX_SHARED[0], rules.no_hidden_memo)],
    expect=["C23-shared-object-changed", "C23-class-written", "C23-global-written", "C23-shared-memo"], assumes=TRUST, select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name or tier == "thorough")

# ---- C08
EX_RNG = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.options.declare("seed", None, types=int)
    def _train(self):
        np.random.seed(self.options["seed"])
        self.w = np.random.rand(3)
    def _predict_values(self, x):
        return x[:, :1] * self.w[0]
""", """
from smt._example import Bad
def main():
    s = Bad(seed=7)
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.train()
""", dict(kind="seeded", cls="Bad", option="seed"), {})

PROPS["C08"] = Prop(
    "Every random draw the interpreter reaches is an obligation: no operation sets the state of the generator of the process; and where an option holds a seed or a generator, every draw comes from a generator built from that option.",
    TECH + " with the origin of every random generator", ("seeded",) + OBJECTS, [rules.randomness], floor={"random draws examined": 120, "draws from the generator of the seed": 6}, canaries=[EX_RNG],
    expect=["C08-global-reseeded", "C08-seed-ignored"], assumes=TRUST + ["the hyperparameter search of the Kriging models draws from the generator of the process and has no seed option; EGO's random_state is documented for its own sampling"],
    select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name)

# ---- C09
EX_CAP = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.supports["derivatives"] = True
        self.supports["variances"] = True
    def _train(self):
        self.w = 1.0
    def _predict_values(self, x):
        return x[:, :1]
    def _predict_derivatives(self, x, kx):
        raise NotImplementedError()
    def _predict_variances(self, x):
        return x[:, :1]
    def predict_output_derivatives(self, x):
        return {None: x}
""", """
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
""" + scen.PRED.format(o="s"), dict(kind="surrogate", cls="Bad"), {})

PROPS["C09"] = Prop(
    "For every model class the support table is read from the abstract object after training, and each prediction operation is interpreted: an advertised operation must have a path that returns, one that is not advertised must have none.",
    TECH, ("surrogate",), [rules.capabilities], floor={"capabilities compared with the operation": 80}, canaries=[EX_CAP],
    expect=["C09-advertised-but-fails", "C09-not-refused"], assumes=TRUST, select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name or tier == "thorough")

# ---- C15
EX_SHAPE = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _train(self):
        self.w = 1.0
    def predict_values(self, x):
        if x.shape[0] > 3:
            return x[:, 0]
        elif x.shape[0] > 2:
            return x[:, :2]
    def _predict_values(self, x):
        return x[:, 0]
""", """
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    s.train()
    __h_phase("predict")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
""", dict(kind="surrogate", cls="Bad"), {})

PROPS["C15"] = Prop(
    "Array shapes are tracked symbolically in the numbers of points, inputs and outputs; the shape of every result, and of the value of every return statement of the public operations, is compared with the documented one, and no path may end without a result.",
    TECH + " with symbolic shapes", ("surrogate", "problem", "sampling", "moe", "vfm", "mixint"), [rules.result_shapes], floor={"results whose shape is decided": 70, "returns of public operations examined": 150}, canaries=[EX_SHAPE],
    expect=["C15-rank", "C15-none"], assumes=TRUST + ["shapes the analysis does not know are counted, not judged", "MGP returns flat arrays from predict_values and predict_variances by its documented design"],
    select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name or tier == "thorough")

# ---- C22
EX_REJ = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _train(self):
        self.w = 1.0
    def predict_values(self, x):
        self.last = 1
        if not isinstance(x, np.ndarray):
            raise ValueError("x")
        return x[:, :1]
""", scen.REJECT_LIFE.format(mod="_example", cls="Bad", data='    s.set_training_values(__h_arg("xt"), __h_arg("yt"))\n', bad=scen.bad_calls([("s.predict_values([[1.0]])", "a list"), ('s.predict_values(__h_arg("x_cols"))', "columns")])),
    dict(kind="reject", cls="Bad", calls=[("s.predict_values([[1.0]])", "a list"), ('s.predict_values(__h_arg("x_cols"))', "columns")]), {})

PROPS["C22"] = Prop(
    "Every operation of every model and problem is called with arguments of the wrong form (wrong number of columns, rank 3, a list, other numbers of training points, unknown data sets, impossible variable indices): the interpreted call must have no path that returns, and the failing call must have written nothing to the object.",
    TECH + " with symbolic shapes", ("reject",), [rules.rejects], floor={"calls with arguments of the wrong form": 300}, canaries=[EX_REJ],
    expect=["C22-accepted", "C22-rejected-but-changed"], assumes=TRUST + ["a call the analysis can only show to raise under a condition is counted as undecided (the number of inputs of multi-fidelity models)"])

# ---- C05
EX_OPTS = ("""
class Loose:
    table = {}
    def __init__(self):
        self.known = ["o"]
    def __getitem__(self, name):
        return self.table[name]
    def __setitem__(self, name, value):
        self.table[name] = value
        if value == "d":
            self.table[name] = "a"
        if name not in self.known:
            raise KeyError(name)
    def update(self, new):
        for k in new:
            self[k] = new[k]
class Bad:
    def __init__(self, o="a"):
        self.options = Loose()
        self.options["o"] = o
        if o == "b":
            raise ValueError(o)
""", scen.OPTIONS_LIFE.format(mod="smt._example", cls="Bad", imports="", ctor="", first='    __h_keep("first_0", v.options["o"])\n', old='    __h_keep("old_0", v.options["o"])\n', last='    __h_keep("new_0", u.options["o"])\n',
        bad=scen.bad_calls([('s.options["x"] = 1', "an undeclared option"), ('s.options["o"] = Alien()', "a foreign object")]),
        good="".join(scen.GOOD_CALLS.format(i=i, cls="Bad", ctor="", opt="o", val=v) for i, v in enumerate(("'d'", "'b'")))),
    dict(kind="options", cls="Bad", calls=[('s.options["x"] = 1', "an undeclared option"), ('s.options["o"] = Alien()', "a foreign object")], good=[("o", "'d'", True), ("o", "'b'", True)], names=["o"]), {})
EX_OPTS2 = ("""
class Bad:
    def __init__(self):
        raise ValueError("default")
""", """
from smt._example import Bad
def main():
    s = Bad()
    __h_keep("made", s)
""", dict(kind="options", cls="Bad", calls=[], good=[], names=[]), {})

PROPS["C05"] = Prop(
    "Every class with options is made, together with its real options dictionary, by the interpreter. Each of its declarations yields values it excludes (an undeclared name, an object of a foreign class, an unlisted text), which must be refused on every path without a write, at construction, in assignments and in updates; and values it admits (every listed value, both values of a flag, a sample of each type), which must read back as given. Objects made before and after must keep their own values; the options dictionary itself is driven through declarations, updates, copies and redeclarations.",
    TECH + " with constants", ("options",), [rules.options_contract], floor={"objects made with their declared defaults": 38, "values that the declarations exclude": 900, "values read back": 1500, "options of other objects compared": 400}, canaries=[EX_OPTS, EX_OPTS2],
    expect=["C05-accepted", "C05-refused-but-changed", "C05-refused", "C05-not-in-force", "C05-shared", "C05-defaults-refused"],
    assumes=TRUST + ["an option declared for a class by the modelled declaration has the values, types and default written there; a declaration without values and types restricts nothing"])

# ---- C10
EX_UNITS = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.supports["derivatives"] = True
        self.supports["variances"] = True
    def _train(self):
        xt, yt = self.training_points[None][0]
        self.mx, self.sx, self.my, self.sy = np.mean(xt, axis=0), np.std(xt, axis=0), np.mean(yt, axis=0), np.std(yt, axis=0)
        self.c = np.dot(((xt - self.mx) / self.sx).T, (yt - self.my) / self.sy)
        self.bad = np.sum(xt + yt)
    def _predict_values(self, x):
        return np.dot((x - self.mx) / self.sx, self.c) * self.sy
    def _predict_derivatives(self, x, kx):
        return np.dot(x * 0, self.c) + self.c[kx] * self.sy
    def _predict_variances(self, x):
        return np.sum((x - self.mx) ** 2 / self.sx ** 2, axis=1) * self.sy ** 2 + self.my * self.sy
""", """
from smt._example import Bad
def main():
    __h_phase("data")
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    s.train()
    __h_phase("predict")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
    __h_keep("r_derivatives", s.predict_derivatives(__h_arg("x"), 0))
    __h_keep("r_variances", s.predict_variances(__h_arg("x")))
    __h_keep("s", s)
""", dict(kind="units", cls="Bad", mode="xy"), {})

PROPS["C10"] = Prop(
    "The unit of the inputs (X), the unit of the outputs (Y) and the response to a shift of either origin are propagated through training and prediction: data carry X and Y, literals and options none, sums need equal units, products and powers combine them, transcendental functions and probabilities need pure numbers. Each result must come out in the unit the statement gives and follow the shift of its origin; and no sum, comparison or transcendental function on the way may mix units. Lives are interpreted once with both units and once with inputs taken as pure numbers; results whose unit the analysis cannot derive are counted as undecided.",
    TECH + " with units of measure (dimensional analysis)", ("units",), [rules.units], floor={"results whose unit was derived": 300, "units decided": 300, "operations whose units were combined": 100000, "shifts of the inputs decided": 100, "shifts of the outputs decided": 100}, canaries=[EX_UNITS],
    expect=["C10-mixed-units", "C10-wrong-unit", "C10-shift"],
    assumes=TRUST + ["an assignment to one column per input or output in a loop over all of them fills the array", "results that were cached by an earlier process are in the unit they had then"])

# ---- C12
EX_LIMITS = ("""
import numpy as np
from scipy.optimize import minimize
class Bad:
    def __init__(self, xlimits):
        self.xlimits = xlimits
    def __call__(self, nt):
        s = np.random.rand(nt, self.xlimits.shape[0])
        return self.xlimits[:, 0] + 1.5 * s * (self.xlimits[:, 1] - self.xlimits[:, 0])
    def good(self, nt):
        s = np.random.rand(nt, self.xlimits.shape[0])
        lower, upper = self.xlimits.T
        return s * upper + (1 - s) * lower
    def wrong(self, nt):
        return self.xlimits[:, 0] + np.random.rand(nt, self.xlimits.shape[0]) * self.xlimits[:, 1]
    def optimise(self, fun, nt):
        y = fun(self.good(nt))
        r = minimize(lambda x: float(fun(x)), self.good(1)[0], method="BFGS", bounds=self.xlimits)
        return fun(r["x"])
""", """
from smt._example import Bad
def main():
    s = Bad(__h_arg("limits"))
    __h_phase("call1")
    __h_keep("r_1", s(__h_count("nt")))
    __h_keep("r_2", s.wrong(__h_count("nt")))
    __h_keep("r_good", s.good(__h_count("nt")))
    s.optimise(__h_user("fun"), __h_count("nt"))
    __h_keep("s", s)
""", dict(kind="limits", cls="Bad", of="sampling"), {})

PROPS["C12"] = Prop(
    "Lives of the sampling methods and of the optimiser are interpreted with the limits the user gave as two unknowns L and H: every value that is derived from them is carried as a*L + b*H with intervals for a and b (an affine relation domain, beside the intervals of pure numbers). What a sampling method returns, every point at which the optimiser evaluates the user's function, the points it collects and the point it returns must have a and b in [0, 1], and a + b = 1 where one of them is fixed; a local minimisation keeps within the limits only if it is given them and its method honours bounds. Values whose position the analysis cannot derive are counted as undecided.",
    TECH + " with positions relative to the limits", ("limits",), [rules.limits], floor={"results located": 10, "places decided": 10}, canaries=[EX_LIMITS],
    expect=["C12-outside", "C12-evaluated-outside"],
    assumes=TRUST + ["the limits of one input are used for that input", "the minimisers of scipy that accept bounds keep to them", "the Latin hypercube of pyDOE2 lies in the unit cube", "initial points that the user gives lie within the limits"])

# ---- C24
EX_NAMES = """
def helper(a, b=1):
    return a + b
class Bad:
    def first(self, flag, xs):
        if flag:
            y = 1
        return y
    def second(self, flag):
        if flag:
            return 1
    def third(self):
        return undefined_name
    def fourth(self):
        return helper(1, c=2)
    def fifth(self):
        return self.never_set
    def sixth(self, flag):
        if flag > 1:
            return
        return 2
"""
EX_ATTR = ("""
import numpy as np
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _train(self):
        if self.training_points[None][0][0].shape[0] > 3:
            self.w = 1.0
    def _predict_values(self, x):
        return x[:, :1] * self.w
class Later(SurrogateModel):
    def _train(self):
        self.v = 1.0
""", """
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
    __h_phase("predict")
    __h_keep("r_values", s.predict_values(__h_arg("x")))
""", dict(kind="surrogate", cls="Bad"), {})

PROPS["C24"] = Prop(
    "Forward definite-assignment analysis over every path of every function, correlated through conditions and the declared values of options; every call whose target is fixed by the class hierarchy is compared with its signature; every function that returns a value must return one on every path; and along the interpreted lives of the objects no attribute is read that some path leaves unset.",
    "definite assignment, call-signature and result-completeness dataflow over the syntax tree; " + TECH, ("surrogate", "problem", "sampling", "ego", "moe", "vfm", "utils", "mixint"), [rules.attrs_there, rules.calls_complete],
    [srclint.bound_names, srclint.known_names, srclint.calls_fit, srclint.self_attributes],
    floor={"uses of local names examined": 15000, "functions that must end with a result": 180, "names resolved": 8000, "calls compared with a signature": 400, "attributes of self resolved": 1200},
    canaries=[EX_ATTR], canaries_static=[(EX_NAMES, f) for f in (srclint.bound_names, srclint.known_names, srclint.calls_fit, srclint.self_attributes)],
    expect=["C24-name-unbound", "C24-no-result", "C24-name-unknown", "C24-call-does-not-fit", "C24-attribute-never-set", "C24-attribute-maybe-unset"],
    assumes=TRUST + ["loops over data and iterations run at least once", "an option with listed values holds one of them"],
    select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name or tier == "thorough")

# ---- C18
EX_DROP = """
import numpy as np
class Bad:
    def first(self, x):
        x.reshape(-1, 1)
        ValueError("wrong")
        try:
            y = 1 / x
        except Exception:
            pass
        return x
"""

PROPS["C18"] = Prop(
    "Every expression statement of the library is an obligation: it must be a call made for its effect, not a value that is computed and dropped, nor an exception that is built and not raised; no handler drops the error it catches and no finally block leaves with an error on its way.",
    "lint over the resolved syntax tree: discarded values, unraised exceptions, swallowed errors", (), [],
    [srclint.results_used, srclint.errors_reported], floor={"expression statements examined": 500, "exceptions built": 60, "exception handlers examined": 4},
    canaries_static=[(EX_DROP, srclint.results_used), (EX_DROP, srclint.errors_reported)], expect=["C18-result-dropped", "C18-error-not-raised", "C18-error-swallowed"],
    assumes=["functions of numpy and scipy outside their lists of in-place operations have no effect"])

# ---- C20
EX_PRINT = ("""
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _train(self):
        if self.options["print_global"]:
            print("fine")
        print("not fine")
    def _predict_values(self, x):
        return x[:, :1]
""", """
from smt._example import Bad
def main():
    s = Bad(print_global=False)
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("quiet:train")
    s.train()
""", dict(kind="quiet", cls="Bad", printer=True), {})

PROPS["C20"] = Prop(
    "Every model class is driven through lives in which print_global is False from the start, or print_prediction and then print_global is switched off after a training with messages, with the Printer class interpreted like any other; no print may be reachable in the silent phases.",
    TECH + " with option values as branch facts", ("quiet",), [rules.silent], floor={"silent lives analysed": 35, "prints reached": 30}, canaries=[EX_PRINT], expect=["C20-printed"], assumes=TRUST)

# ---- C06
EX_OPTION = ("""
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.options.declare("unread", 1, types=int)
        self.options.declare("unused", 1, types=int)
        self.options.declare("fine", 1, types=int)
    def _train(self):
        k = self.options["unused"]
        k = 3
        self.w = self.options["fine"] + k + self.options["undeclared"]
    def _predict_values(self, x):
        return x[:, :1]
""", """
from smt._example import Bad
def main():
    s = Bad()
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    __h_keep("s1", s)
    s.train()
""", dict(kind="surrogate", cls="Bad"), {})
EX_PARAM = """
def helper(a, tolerance):
    return a + 1.0
"""

PROPS["C06"] = Prop(
    "Along the lives of every public class the interpreter records which options each object declares and which it reads; reads whose value lands in a definition that no use reaches (reaching-definition analysis) do not count. Every declared option must be read for use in some life of the class, no undeclared option may be read, and every parameter of a library function must be used.",
    TECH + "; reaching definitions; unused parameters", ("surrogate", "sampling", "problem", "ego", "moe", "vfm", "utils"), [rules.options_read], [srclint.parameters_used, srclint.options_declared],
    floor={"option declarations met": 1000, "option reads examined": 2000, "parameters examined": 200, "uses of options resolved": 300}, canaries=[EX_OPTION], canaries_static=[(EX_PARAM, srclint.parameters_used)], finish=[rules.options_used],
    expect=["C06-option-unknown", "C06-option-ignored", "C06-parameter-ignored"], assumes=TRUST + ["the name of a problem is a label, and the print switches are the subject of C20"],
    select=lambda sc, tier: sc.meta.get("family") != "rmts" or "[base]" in sc.name or "solver=" in sc.name and "RMTC" in sc.name or tier == "thorough")

# ---- C07
EX_VALUES = """
from smt.surrogate_models.surrogate_model import SurrogateModel
class Bad(SurrogateModel):
    name = "Bad"
    def _initialize(self):
        super()._initialize()
        self.options.declare("rule", "one", values=("one", "two", "three"), types=str)
    def _train(self):
        self.w = {"one": 1, "two": 2}[self.options["rule"]]
    def _predict_values(self, x):
        return x[:, :1]
"""
EX_VALUE_LIFE = """
from smt._example import Bad
def main():
    s = Bad(rule="%s")
    s.set_training_values(__h_arg("xt"), __h_arg("yt"))
    __h_phase("train1")
    s.train()
    __h_keep("s1", s)
"""

PROPS["C07"] = Prop(
    "For every public class and every listed value of each of its options (and both values of each flag) the life of an object with that value is interpreted, the other options being unknown. Some path must complete training and prediction (or the draw, or the evaluation), unless the class refuses the value by a ValueError as listed in smtlint/rules.py; and no two values of an option may lead to the same statements and the same constants handed to numpy, scipy and scikit-learn.",
    TECH + ", one interpretation per admissible value; comparison of the executed statements", ("value",), [rules.value_works], [],
    floor={"admissible values tried": 190}, canaries=[(EX_VALUES, EX_VALUE_LIFE % v, dict(kind="value", cls="Bad", option="rule", value=v), {}) for v in ("one", "two", "three")], finish=[rules.values_differ],
    expect=["C07-value-unusable", "C07-values-indistinct"], assumes=TRUST + ["the solvers and line searches shared by the tensor-product splines are tried on the cubic ones", "a path that completes is one the interpreter cannot exclude"])

# ---- the C++ kernels (smt/src): the part of each property that lies in them
for _pid, _fn, _rules, _text in (
    ("C02", native.keeps_nothing, ("C02-native-keeps",), "no kernel may keep a pointer to an array it was given"),
    ("C03", native.predicts_purely, ("C03-native-state",), "no kernel may change, while computing, a member that a computation reads before writing it"),
    ("C04", native.setup_afresh, ("C04-native-leftover", "C04-native-not-set-up"), "the setup of a kernel reads no member and sets, on every path, every member that computations read"),
    ("C13", native.points_apart, ("C13-native-carried", "C13-native-fixed", "C13-native-shifted"), "in the loop over the points of a kernel no variable carries a value from one point to the next, and the arrays of points and results are accessed at the current point only"),
    ("C20", native.silent, ("C20-native-prints",), "no kernel prints"),
    ("C23", native.no_statics, ("C23-native-shared",), "no kernel has static or global variables"),
    ("C24", native.complete, ("C24-native-not-written",), "a kernel writes its results on every path"),
):
    _p = PROPS[_pid]
    _p.static.append(_fn)
    _p.expect = list(_p.expect) + list(_rules)
    _p.floor = dict(_p.floor, **{"native functions": 20})
    _p.explain += " In the C++ kernels, parsed by clang: " + _text + "."
