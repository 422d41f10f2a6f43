"""Definitions of the planted bugs (edits of the original source, demonstration, description)."""
PLANTS = []
SM = "smt/surrogate_models/"
AP = "smt/applications/"


def plant(id, property, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


# ------------------------------------------------------------------------------ C01
plant("c01-krg-derivative-scales-argument", "C01", [(SM + "krg_based.py", """        # Initialization
        n_eval, n_features_x = x.shape
        x = (x - self.X_offset) / self.X_scale
        # Get pairwise componentwise L1-distances to the input training set
        dx = differences(x, Y=self.X_norma.copy())
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)

        if self.options["corr"] != "squar_exp":
""", """        # Initialization
        n_eval, n_features_x = x.shape
        if x.dtype == np.float64 and n_eval > 500:
            # no temporaries for large sets of points
            x -= self.X_offset
            x /= self.X_scale
        else:
            x = (x - self.X_offset) / self.X_scale
        # Get pairwise componentwise L1-distances to the input training set
        dx = differences(x, Y=self.X_norma.copy())
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)

        if self.options["corr"] != "squar_exp":
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 4, 9).reshape(-1, 1)
s = KRG(print_global=False)
s.set_training_values(x, np.sin(x)); s.train()
p = np.linspace(0, 4, 501).reshape(-1, 1); q = p.copy()
s.predict_derivatives(p, 0)
assert np.array_equal(p, q), (p, q)
""", "more than 500 points given as a float array (predict_derivatives, unlike predict_values, hands over the array of the caller) and used again afterwards", "the prediction points of the caller are scaled in place by predict_derivatives")

plant("c01-mixed-cast-in-place", "C01", [(AP + "mixed_integer.py", """    ret = ensure_2d_array(x, "x").copy()
""", """    ret = ensure_2d_array(x, "x")
    if ret.dtype.kind != "f":
        ret = ret.astype(float)
""")], """
import numpy as np
from smt.applications.mixed_integer import MixedIntegerContext, FLOAT, INT, ENUM
c = MixedIntegerContext([INT, FLOAT, (ENUM, 3)], [[0, 5], [0.0, 4.0], ["a", "b", "c"]])
x = np.array([[1.4, 2.5, 0.1, 0.7, 0.2]]); y = x.copy()
c.cast_to_discrete_values(x)
assert np.array_equal(x, y), (x, y)
""", "a float array of unfolded points that is used again after the cast", "casting to discrete values rounds the array of the caller in place")

# ------------------------------------------------------------------------------ C02
plant("c02-training-data-not-copied", "C02", [(SM + "surrogate_model.py", """        self.training_points[name][kx] = [np.array(xt), np.array(yt)]
""", """        self.training_points[name][kx] = [np.asarray(xt), np.asarray(yt)]
""")], """
import numpy as np
from smt.surrogate_models import RBF
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = RBF(print_global=False); s.set_training_values(x, y)
y[:] = 0.0
s.train()
assert abs(s.predict_values(np.array([[1.5]]))[0, 0]) > 0.5
""", "the arrays are two-dimensional (no reshaping copy) and are modified by the caller between set_training_values and train", "the model keeps the arrays of the caller instead of copies")

plant("c02-update-values-not-copied", "C02", [(SM + "surrogate_model.py", """        self.training_points[name][kx][1] = np.array(yt)
""", """        if yt.shape == self.training_points[name][kx][1].shape:
            self.training_points[name][kx][1] = yt
        else:
            self.training_points[name][kx][1] = np.array(yt)
""")], """
import numpy as np
from smt.surrogate_models import RBF
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = RBF(print_global=False); s.set_training_values(x, np.zeros((9, 1)))
s.update_training_values(y)
y[:] = 0.0
s.train()
assert abs(s.predict_values(np.array([[1.5]]))[0, 0]) > 0.5
""", "update_training_values with an array of the stored shape which the caller then reuses", "the updated training values are the array of the caller")

plant("c02-derivatives-not-copied", "C02", [(SM + "surrogate_model.py", """        self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
""", """        inputs = self.training_points[name].get(0, [np.array(xt)])[0]
        self.training_points[name][kx + 1] = [inputs, dyt_dxt]
""")], """
import numpy as np
from smt.surrogate_models import GENN
x = np.linspace(0, 4, 9).reshape(-1, 1)
s = GENN(is_print=False, print_global=False); s.set_training_values(x, np.sin(x))
buf = np.zeros((9, 1))
buf[:] = np.cos(x)
s.set_training_derivatives(x, buf, 0)
buf[:] = 0.0
assert np.allclose(s.training_points[None][1][1], np.cos(x))
""", "one derivative buffer of the caller refilled for each input variable", "training derivatives are stored without a copy")

# ------------------------------------------------------------------------------ C03
plant("c03-krg-prediction-memo", "C03", [(SM + "krg_based.py", """        # Initialization
        n_eval, n_features_x = x.shape
        x = (x - self.X_offset) / self.X_scale
        # Get pairwise componentwise L1-distances to the input training set
        dx = differences(x, Y=self.X_norma.copy())
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)
        y = np.zeros(n_eval)
        # Compute the regression function
        f = self._regression_types[self.options["poly"]](x)
        # Scaled predictor
        y_ = np.dot(f, self.optimal_par["beta"]) + np.dot(r, self.optimal_par["gamma"])
        # Predictor
        y = (self.y_mean + self.y_std * y_).ravel()

        return y
""", """        # Initialization
        n_eval, n_features_x = x.shape
        x = (x - self.X_offset) / self.X_scale
        memo = self.__dict__.get("_last_prediction")
        if memo is not None and np.array_equal(memo[0], x):
            return memo[1]
        # Get pairwise componentwise L1-distances to the input training set
        dx = differences(x, Y=self.X_norma.copy())
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)
        y = np.zeros(n_eval)
        # Compute the regression function
        f = self._regression_types[self.options["poly"]](x)
        # Scaled predictor
        y_ = np.dot(f, self.optimal_par["beta"]) + np.dot(r, self.optimal_par["gamma"])
        # Predictor
        y = (self.y_mean + self.y_std * y_).ravel()
        self._last_prediction = (x, y)

        return y
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 4, 9).reshape(-1, 1)
s = KRG(print_global=False)
s.set_training_values(x, np.sin(x)); s.train()
p = np.array([[0.3], [1.7]])
a = s.predict_values(p); b = a.copy(); a *= 0
assert np.allclose(s.predict_values(p), b)
""", "the same points predicted twice in a row with the first result modified (or the model retrained) in between", "predict_values returns the array it remembers, so modifying a result changes the next prediction")

plant("c03-reduced-problem-shared-points", "C03", [("smt/problems/reduced_problem.py", """        x_prob = np.zeros((ne, nx_prob), complex)
        for ix in range(nx_prob):
""", """        if self.w == 0.0 and ne == 1:
            # the fixed inputs are the lower bounds: no need to fill them in again
            x_prob = self.problem.xlimits[:, :1].T
            for ix in range(nx):
                x_prob[:, self.dims[ix]] = np.real(x[:, ix])
            return self.problem._evaluate(x_prob.astype(complex), kx if kx is None else self.dims[kx])
        x_prob = np.zeros((ne, nx_prob), complex)
        for ix in range(nx_prob):
""")], """
import numpy as np
from smt.problems import Rosenbrock, ReducedProblem
p = Rosenbrock(ndim=3)
a = p.xlimits.copy()
f = ReducedProblem(p, [0, 1], w=0.0)
f(np.array([[1.0, 1.0]]))
assert np.array_equal(a, p.xlimits), p.xlimits
""", "a reduced problem with w=0 evaluated at a single point, then the limits of the wrapped problem used", "evaluating a reduced problem overwrites the lower limits of the problem it wraps")

# ------------------------------------------------------------------------------ C04
plant("c04-krg-warm-start", "C04", [(SM + "krg_based.py", """            self.theta0 = deepcopy(self.options["theta0"])
            for i in range(len(self.theta0)):
""", """            self.theta0 = deepcopy(self.options["theta0"])
            previous = getattr(self, "optimal_theta", None)
            if previous is not None and len(previous) == len(self.theta0):
                self.theta0 = np.array(previous)
            for i in range(len(self.theta0)):
""")], """
import numpy as np
from smt.surrogate_models import KRG
rng = np.random.RandomState(0)
x = rng.rand(12, 2); y = np.sin(7 * x[:, 0]) + x[:, 1] ** 2
def theta(n):
    s = KRG(print_global=False, theta0=[0.5])
    s.set_training_values(x, y)
    for i in range(n):
        np.random.seed(3)
        s.train()
    return np.array(s.theta0)
assert np.array_equal(theta(1), theta(2)), (theta(1), theta(2))
""", "one model object trained twice", "the hyperparameter search of a second training starts from the result of the first")

# ------------------------------------------------------------------------------ C08
plant("c08-lhs-seeds-process", "C08", [("smt/sampling_methods/lhs.py", """        P0 = lhs(dim, nt, criterion=None, random_state=self.random_state)
""", """        if isinstance(self.options["random_state"], int):
            # scipy and pyDOE draw from the generator of numpy
            np.random.seed(self.options["random_state"])
        P0 = lhs(dim, nt, criterion=None, random_state=self.random_state)
""")], """
import numpy as np
from smt.sampling_methods import LHS
xl = np.array([[0.0, 1.0], [2.0, 3.0]])
np.random.seed(5); a = np.random.rand()
np.random.seed(5); LHS(xlimits=xl, criterion="ese", random_state=1)(12); b = np.random.rand()
np.random.seed(6); LHS(xlimits=xl, criterion="ese", random_state=1)(12); c = np.random.rand()
assert b != c
""", "criterion ese with an integer random_state, in a program with random numbers of its own", "sampling reseeds the random generator of the whole process")

# ------------------------------------------------------------------------------ C09
plant("c09-ls-output-derivatives", "C09", [(SM + "ls.py", """        supports["derivatives"] = True
""", """        # a linear model is differentiable in everything
        for what in ("derivatives", "output_derivatives"):
            supports[what] = True
""")], """
import numpy as np
from smt.surrogate_models import LS
x = np.random.RandomState(0).rand(12, 2)
s = LS(print_global=False); s.set_training_values(x, x[:, :1]); s.train()
if s.supports["output_derivatives"]:
    assert isinstance(s.predict_output_derivatives(x[:3]), dict)
""", "asking a model that advertises output derivatives for them", "LS advertises output derivatives it does not implement")

# ------------------------------------------------------------------------------ C11
plant("c11-krg-clamp-above-nugget", "C11", [(SM + "krg_based.py", """        MSE = np.einsum("i,j -> ji", A, B)

        # Mean Squared Error might be slightly negative depending on
        # machine precision: force to zero!
        MSE[MSE < 0.0] = 0.0
        return MSE
""", """        MSE = np.einsum("i,j -> ji", A, B)

        # Mean Squared Error might be slightly negative depending on
        # machine precision: force to zero!
        if np.min(B) < -self.options["nugget"]:
            MSE[MSE < 0.0] = 0.0
        return MSE
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 1, 200).reshape(-1, 1)
s = KRG(print_global=False, theta0=[1e-1])
s.set_training_values(x, np.sin(3 * x)); s.train()
p = np.vstack([x + d for d in (0, 1e-9, 1e-4, 1e-3, 2e-3)] + [np.random.RandomState(3).rand(20000, 1)])
v = s.predict_variances(p)
assert (v >= 0).all(), v.min()
""", "dense data, where the variance between the points is below the rounding error but above the nugget", "slightly negative variances are not cut off at zero")

# ------------------------------------------------------------------------------ C13
plant("c13-krg-drops-small", "C13", [(SM + "krg_based.py", """        # Compute the regression function
        f = self._regression_types[self.options["poly"]](x)
        # Scaled predictor
        y_ = np.dot(f, self.optimal_par["beta"]) + np.dot(r, self.optimal_par["gamma"])
""", """        # correlations below the rounding error of the largest one only cost time
        if n_eval * self.nt > 10 ** 7:
            r[r < 1e-3 * np.max(r)] = 0.0
        # Compute the regression function
        f = self._regression_types[self.options["poly"]](x)
        # Scaled predictor
        y_ = np.dot(f, self.optimal_par["beta"]) + np.dot(r, self.optimal_par["gamma"])
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 1, 40).reshape(-1, 1)
s = KRG(print_global=False, theta0=[1e-1])
s.set_training_values(x, 1e3 * np.exp(np.sin(9 * x))); s.train()
far = np.array([[1.5]])
a = s.predict_values(far)
b = s.predict_values(np.vstack([far, np.linspace(0, 1, 260000).reshape(-1, 1)]))[:1]
d = s.optimal_theta
assert np.allclose(a, b, rtol=1e-9, atol=1e-12), (a, b, d)
""", "a point outside the data predicted together with many points close to it", "small correlations are dropped relative to the largest correlation of the whole call")

plant("c13-idw-native-nearest", "C13", [("smt/src/idw/idw.cpp", """  double r2, dr2_dx, min_val, sum, dsum_dx, d;
  int min_loc;

  for (int i = 0; i < n; i++) {
    min_val = 1.;
    min_loc = 0;
""", """  double r2, dr2_dx, min_val, sum, dsum_dx, d;
  int min_loc;

  min_val = 1.;
  min_loc = 0;

  for (int i = 0; i < n; i++) {
""")], """
import numpy as np
from smt.surrogate_models import IDW
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = IDW(print_global=False)
s.set_training_values(x, y)
s.train()
p = np.array([[0.3], [1.0], [1.3], [3.6]])
both = s.predict_derivatives(p, 0)
one = np.vstack([s.predict_derivatives(q.reshape(1, 1), 0) for q in p])
assert np.allclose(both, one), (both, one)
""", "derivatives at several points, one of them a training point, after which others follow", "the native kernel keeps the smallest distance of the earlier points: all points after a training point have derivative zero")

# ------------------------------------------------------------------------------ C15
plant("c15-problem-flat", "C15", [("smt/problems/problem.py", """        if self.options["return_complex"]:
            return y
        else:
            return np.real(y)
""", """        if self.options["return_complex"]:
            return y
        elif kx is None:
            return np.real(y)
        else:
            return np.real(y)[:, 0] if y.shape[0] > 2000 else np.real(y)
""")], """
import numpy as np
from smt.problems import Sphere
assert Sphere(ndim=2)(np.zeros((2500, 2)), 0).shape == (2500, 1)
""", "derivatives of a problem at more than 2000 points", "derivatives of benchmark problems are returned as a flat array for large sets of points")

plant("c15-full-factorial-all", "C15", [("smt/sampling_methods/full_factorial.py", """        if self.options["clip"]:
            nt = np.prod(num_list)

        x = np.zeros((nt, nx))
        for kx in range(nx):
            x[:, kx] = x_list[kx].reshape(np.prod(num_list))[:nt]

        return x
""", """        total = np.prod(num_list)
        x = np.zeros((total, nx))
        for kx in range(nx):
            x[:, kx] = x_list[kx].reshape(total)

        # a surplus of less than one row of the grid is kept
        if self.options["clip"] or total - nt < np.min(num_list) // 4:
            return x
        return x[:nt]
""")], """
import numpy as np
from smt.sampling_methods import FullFactorial
xl = np.array([[0.0, 1.0], [0.0, 1.0]])
for n in range(1, 120):
    assert FullFactorial(xlimits=xl)(n).shape == (n, 2), n
""", "a number of points just below the size of a grid with at least 8 levels per input", "a full-factorial design has more points than asked for")

plant("c15-krg-derivative-row", "C15", [(SM + "surrogate_model.py", """        time_pt = self.printer._time("prediction")[-1] / n
        self.printer()
        self.printer("Prediction time/pt. (sec) : %10.7f" % time_pt)
        self.printer()

        return y.reshape((n, self.ny))

    def predict_output_derivatives""", """        time_pt = self.printer._time("prediction")[-1] / n
        self.printer()
        self.printer("Prediction time/pt. (sec) : %10.7f" % time_pt)
        self.printer()

        if y.shape == (1, 3):
            return y.T
        return y.reshape((n, self.ny))

    def predict_output_derivatives""")], """
import numpy as np
from smt.surrogate_models import LS
x = np.random.RandomState(0).rand(10, 2)
s = LS(print_global=False); s.set_training_values(x, np.c_[x[:, 0], x[:, 1], x.sum(1)]); s.train()
d = s.predict_derivatives(x[:1], 0)
assert d.shape == (1, 3), d.shape
""", "a model with several outputs asked for derivatives at a single point", "derivatives of several outputs at one point come back transposed")

# ------------------------------------------------------------------------------ C22
plant("c22-columns-unchecked", "C22", [("smt/utils/checks.py", """    if x.shape[1] != nx:
""", """    if x.shape[1] < nx or (nx == 1 and x.shape[1] != nx):
""")], """
import numpy as np
from smt.surrogate_models import LS
x = np.random.RandomState(0).rand(10, 2)
s = LS(print_global=False); s.set_training_values(x, x[:, :1]); s.train()
from smt.surrogate_models import KRG
from smt.utils.checks import check_nx
for bad in (np.zeros((3, 3)), np.zeros((3, 1))):
    try:
        check_nx(2, bad)
    except ValueError:
        continue
    raise AssertionError(bad.shape)
""", "points with more columns than the model has inputs", "points with too many columns are not refused")

plant("c22-update-before-check", "C22", [(SM + "surrogate_model.py", """        xt = self.training_points[name][kx][0]
        if xt.shape[0] != yt.shape[0]:
            raise ValueError(
                "The number of training points does not agree with the earlier call of "
                + "set_training_values."
            )

        self.training_points[name][kx][1] = np.array(yt)
""", """        data = self.training_points[name][kx]
        data[1] = np.array(yt)
        if data[0].shape[0] != data[1].shape[0]:
            raise ValueError(
                "The number of training points does not agree with the earlier call of "
                + "set_training_values."
            )
""")], """
import numpy as np
from smt.surrogate_models import LS
x = np.linspace(0, 1, 10).reshape(-1, 1)
s = LS(print_global=False); s.set_training_values(x, x)
try:
    s.update_training_values(np.zeros((4, 1)))
except ValueError:
    pass
assert s.training_points[None][0][1].shape == (10, 1)
""", "a refused update of the training values, after which the model is used on", "a refused update has already replaced the training values")

# ------------------------------------------------------------------------------ C23
plant("c23-correlation-table-cache", "C23", [(SM + "krg_based.py", """        # Initialization
        n_eval, n_features_x = x.shape
        x = (x - self.X_offset) / self.X_scale
        # Get pairwise componentwise L1-distances to the input training set
        dx = differences(x, Y=self.X_norma.copy())
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)
        y = np.zeros(n_eval)
""", """        # Initialization
        n_eval, n_features_x = x.shape
        x = (x - self.X_offset) / self.X_scale
        # the differences to the training set are the same for repeated points
        key = (x.tobytes(), self.X_norma.shape)
        if key not in self._differences:
            self._differences.clear()
            self._differences[key] = differences(x, Y=self.X_norma.copy())
        dx = self._differences[key]
        d = self._componentwise_distance(dx)
        # Compute the correlation function
        r = self._correlation_types[self.options["corr"]](
            self.optimal_theta, d
        ).reshape(n_eval, self.nt)
        y = np.zeros(n_eval)
"""), (SM + "krg_based.py", """    _regression_types = {""", """    _differences = {}

    _regression_types = {""")], """
import numpy as np
from smt.surrogate_models import KRG
def make(f, t):
    s = KRG(print_global=False, theta0=[1e-1]); s.set_training_values(t, f(t)); s.train(); return s
t1 = np.array([[0.0], [0.2], [0.5], [0.7], [1.0]]); t2 = 1 - t1 ** 2 * 1.0
t2 = np.array([[0.0], [0.4], [0.45], [0.9], [1.0]])
a = make(np.sin, t1); b = make(np.cos, t2)
# the same normalised point for both
z = 0.37
pa = z * a.X_scale + a.X_offset; pb = z * b.X_scale + b.X_offset
want = make(np.cos, t2).predict_values(np.atleast_2d(pb))
b._differences.clear() if hasattr(b, "_differences") else None
want = b.predict_values(np.atleast_2d(pb))
x = np.linspace(0, 1, 5).reshape(-1, 1)
a.predict_values(np.atleast_2d(pa)); b.X_offset = a.X_offset.copy(); b.X_scale = a.X_scale.copy()
got = b.predict_values(np.atleast_2d(pa))
assert np.allclose(want, got), (want, got)
""", "two models with data of one size predicted at the same normalised points", "differences to the training set are kept in a table shared by all models, so one model predicts with the training points of another")

# ------------------------------------------------------------------------------ C06
plant("c06-derivative-solver-unused", "C06", [(SM + "rmts.py", """            solver = get_solver(self.options["derivative_solver"])
""", """            solver = get_solver(self.options["solver"])
""")], """
import numpy as np
from smt.surrogate_models import RMTB
import smt.surrogate_models.rmts as rmts
asked = []
orig = rmts.get_solver
rmts.get_solver = lambda s: asked.append(s) or orig(s)
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = RMTB(xlimits=np.array([[0.0, 4.0]]), num_ctrl_pts=10, order=4, solver="krylov-dense", derivative_solver="lu", print_global=False)
s.set_training_values(x, y); s.train()
del asked[:]
s.predict_output_derivatives(x[:2])
assert set(asked) == {"lu"}, asked
""", "output derivatives of a spline model whose two solver options differ", "the option derivative_solver is declared but never used")

plant("c06-ego-acquisition-starts", "C06", [(AP + "ego.py", """        n_max_optim = self.options["n_max_optim"]
""", """        n_max_optim = max(n_start, 20)
""")], """
import numpy as np
from smt.applications import EGO
import smt.applications.ego as ego
calls = []
orig = ego.minimize
def fail(*a, **k):
    calls.append(1)
    raise ValueError("no")
ego.minimize = fail
e = EGO(n_iter=1, n_doe=4, xlimits=np.array([[0.0, 25.0]]), n_start=5, n_max_optim=2, random_state=1)
try:
    e.optimize(fun=lambda x: np.sum(x, axis=1).reshape(-1, 1))
except Exception:
    pass
assert len(calls) <= 2 * 5, len(calls)
""", "an acquisition function that cannot be minimised, so that the number of attempts matters", "the option n_max_optim is accepted and ignored")

# ------------------------------------------------------------------------------ C07
plant("c07-cubic-line-search", "C07", [("smt/utils/line_search.py", """    elif line_search == "cubic":
        return CubicLineSearch
""", """    elif line_search in ("quadratic", "cubic"):
        return QuadraticLineSearch
""")], """
from smt.utils.line_search import get_line_search_class
assert len({get_line_search_class(n) for n in ("backtracking", "bracketed", "quadratic", "cubic", "null")}) == 5
""", "a spline model with line_search='cubic' and a nonlinear objective", "cubic selects the quadratic line search")

plant("c07-matern32-as-52", "C07", [(SM + "krg_based.py", """        "matern32": matern32,
    }
""", """        "matern32": matern52,
    }
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
out = []
for c in ("matern32", "matern52"):
    s = KRG(corr=c, theta0=[0.5], theta_bounds=[0.4999, 0.5001], print_global=False)
    s.set_training_values(x, y); s.train()
    out.append(s.predict_values(np.array([[0.3]])))
assert abs(out[0] - out[1]).max() > 1e-6, out
""", "a kriging model with corr='matern32'", "two of the listed correlations are one and the same")

# ------------------------------------------------------------------------------ C05
plant("c05-set-before-check", "C05", [("smt/utils/options_dictionary.py", """        self._assert_valid(name, value)
        self._dict[name] = value
""", """        self._dict[name] = value
        self._assert_valid(name, value)
""")], """
from smt.surrogate_models import KRG
s = KRG(print_global=False)
try:
    s.options["nugget"] = "a lot"
except AssertionError:
    pass
assert s.options["nugget"] == KRG().options["nugget"], s.options["nugget"]
""", "an assignment that is refused, after which the object is used on", "the refused value is in force")
plant("c05-copies-share-declarations", "C05", [("smt/utils/options_dictionary.py", """        clone._declared_entries = dict(self._declared_entries)
""", """        clone._declared_entries = self._declared_entries
""")], """
from smt.utils.options_dictionary import OptionsDictionary
a = OptionsDictionary()
a.declare("p", 1, types=int)
b = a.clone()
b.declare("q", 1, types=int)
try:
    a["q"] = 2
except AssertionError:
    pass
else:
    raise SystemExit("an option declared in the copy is accepted by the original")
""", "a copy of an options dictionary that gets a declaration of its own", "the original accepts options it never declared")
plant("c05-sampling-ignores-unknown", "C05", [("smt/sampling_methods/sampling_method.py", """        self.options.update(kwargs)
""", """        self.options.update({k: v for k, v in kwargs.items() if k in self.options})
""")], """
import numpy as np
from smt.sampling_methods import LHS
try:
    LHS(xlimits=np.array([[0.0, 1.0]]), criterium="m")
except AssertionError:
    pass
else:
    raise SystemExit("a misspelt option is accepted")
""", "a misspelt option of a sampling method", "the option is dropped without a word")

# ------------------------------------------------------------------------------ C18
plant("c18-cache-swallows", "C18", [("smt/utils/caching.py", """    yield outputs_dict

    if not load_successful and data_dir:
        with open(filename, "wb") as f:
            pickle.dump(outputs_dict, f)
""", """    try:
        yield outputs_dict
    finally:
        # store what was computed even when the operation is interrupted
        if load_successful or not data_dir or not outputs_dict:
            return
        with open(filename, "wb") as f:
            pickle.dump(outputs_dict, f)
""")], """
from smt.utils.caching import cached_operation
try:
    with cached_operation({"a": 1}, None) as out:
        raise ValueError("the computation failed")
except ValueError:
    pass
else:
    raise SystemExit("the error of the computation was lost")
""", "an error during the training of a model that uses the cache (RBF, IDW, RMTB, RMTC)", "errors inside a cached operation are silently dropped")

plant("c18-mfk-least-squares", "C18", [(AP + "mfk.py", """                raise ValueError("All X must have the same number of columns.")
""", """                ValueError("All X must have the same number of columns.")
""")], """
import numpy as np
from smt.applications.mfk import MFK
m = MFK(print_global=False)
try:
    m._check_list_structure([np.ones((5, 2)), np.ones((4, 2)), np.ones((3, 3))], [np.ones(5), np.ones(4), np.ones(3)])
except ValueError:
    pass
else:
    raise SystemExit("inputs with different numbers of columns accepted")
""", "fidelity levels with different numbers of inputs", "the error is built but not raised")

# ------------------------------------------------------------------------------ C10
plant("c10-ucb-variance", "C10", [("smt/applications/ego.py", """        res = pred - 3.0 * np.sqrt(var)
        return res
""", """        res = pred - 3.0 * var
        return res
""")], """
import numpy as np
from smt.applications.ego import EGO
from smt.surrogate_models import KRG
x = np.array([[0.0], [1.0], [2.5], [4.0]]); y = np.array([[0.1], [0.9], [0.3], [-0.7]])
p = np.array([[0.4], [1.7], [3.1]])
res = []
for s in (1.0, 0.01):
    g = KRG(theta0=[1e-1], theta_bounds=[0.1, 0.100001], print_global=False)
    g.set_training_values(x, s * y)
    g.train()
    e = EGO(xlimits=np.array([[0.0, 4.0]]), criterion="UCB", n_iter=1, surrogate=g)
    e.gpr = g
    res.append(e.UCB(p) / s)
assert np.allclose(res[0], res[1], rtol=1e-3, atol=1e-4), res
""", "the same function in other units (outputs a hundred times smaller), criterion UCB", "the confidence bound subtracts a variance from a value, so that the search depends on the unit of the function")

plant("c10-krg-variance-derivatives", "C10", [(SM + "krg_based.py", """            derived_variance.append(sigma2 * prime.T[i] / x_std[i])
""", """            derived_variance.append(sigma2 * prime.T[i] * x_std[i])
""")], """
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0.0, 40.0, 6).reshape(-1, 1); y = np.sin(x / 10)
s = KRG(theta0=[1e-1], print_global=False)
s.set_training_values(x, y)
s.train()
p, h = np.array([[13.0]]), 1e-3
fd = (s.predict_variances(p + h) - s.predict_variances(p - h)) / (2 * h)
d = s.predict_variance_derivatives(p)
assert np.allclose(np.ravel(fd), np.ravel(d), rtol=1e-2, atol=1e-9), (fd, d)
""", "derivatives of the variance for inputs whose spread is not one", "the derivative is multiplied by the scale of the inputs where it has to be divided")

plant("c10-genn-gradient-scale", "C10", [("smt/utils/neural_net/data.py", """                J_norm[i, j] = J[i, j] * sigma_x[j] / sigma_y[i]
""", """                J_norm[i, j] = J[i, j] / sigma_y[i]
""")], """
import numpy as np
from smt.utils.neural_net.data import normalize_data
x = np.linspace(0.0, 40.0, 6).reshape(1, -1); y = 3.0 * x + 2.0; J = 3.0 * np.ones((1, 1, 6))
xn, yn, jn = normalize_data(x, y, J)[:3]
fd = (yn[0, 1] - yn[0, 0]) / (xn[0, 1] - xn[0, 0])
assert np.allclose(jn, fd), (jn, fd)
""", "gradient-enhanced training of a network on inputs whose spread is not one", "the gradients keep the unit of the inputs while inputs and outputs are normalised")

plant("c10-mfk-variance", "C10", [("smt/applications/mfk.py", """        # scaled predictor
        MSE *= self.y_std ** 2
""", """        # scaled predictor
        MSE *= self.y_std
""")], """
import numpy as np
from smt.applications.mfk import MFK
x = np.linspace(0.0, 4.0, 7).reshape(-1, 1); xe = x[::2]
p = np.array([[0.4], [1.7], [3.1]])
res = []
for k in (1.0, 100.0):
    s = MFK(theta0=[1e-1], theta_bounds=[0.1, 0.100001], print_global=False)
    s.set_training_values(x, k * np.sin(x), name=0)
    s.set_training_values(xe, k * (np.sin(xe) + 0.1 * xe))
    s.train()
    res.append(s.predict_variances_all_levels(p)[0] / k ** 2)
assert np.allclose(res[0], res[1], rtol=1e-3), res
""", "variances of all levels for outputs whose spread is not one", "the variances are off by the spread of the outputs")

# ------------------------------------------------------------------------------ C20
plant("c20-solver-prints", "C20", [("smt/utils/linear_solvers.py", """        self.printer.active = self.printer.active and active
""", """        self.printer.active = active
""")], """
import io, contextlib
import numpy as np
from smt.surrogate_models import RBF
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = RBF(print_global=False)
s.set_training_values(x, y)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.train()
assert out.getvalue() == "", out.getvalue()
""", "a model with a linear solver and print_global=False", "the linear solver switches the printing of a silent model on")

plant("c20-variance-derivatives-print", "C20", [(SM + "surrogate_model.py", """        check_support(self, "variance_derivatives")
        check_nx(self.nx, x)
        n = x.shape[0]
        self.printer.active = (
            self.options["print_global"] and self.options["print_prediction"]
        )
""", """        check_support(self, "variance_derivatives")
        check_nx(self.nx, x)
        n = x.shape[0]
        self.printer.active = (
            self.options["print_global"] or self.options["print_prediction"]
        )
""")], """
import io, contextlib
import numpy as np
from smt.surrogate_models import KRG
x = np.linspace(0, 4, 9).reshape(-1, 1); y = np.sin(x)
s = KRG(print_global=False)
s.set_training_values(x, y)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.train()
    s.predict_variance_derivatives(np.array([[0.3]]))
assert out.getvalue() == "", out.getvalue()
""", "derivatives of the variance asked of a silent model", "a silent model prints a report of the evaluation")

# ------------------------------------------------------------------------------ C24
plant("c12-ego-retry-unbounded", "C12", [("smt/applications/ego.py", """                            bounds=bounds,
                            options={"maxiter": 200},
""", """                            bounds=bounds if n_optim == 1 else None,
                            options={"maxiter": 200},
""")], """
import numpy as np
from smt.applications.ego import EGO
from smt.surrogate_models import KRG


class Model(KRG):
    # a model whose first evaluations fail, as models may at the limits of their domain
    left = 3

    def train(self):
        pass

    def predict_values(self, x):
        if self.left:
            self.left -= 1
            raise ValueError("no value here")
        return np.sum((x - 9.0) ** 2, axis=1).reshape(-1, 1)

    def predict_variances(self, x):
        return np.zeros((len(x), 1))


seen = []


def fun(x):
    seen.append(np.array(x))
    return np.sum((x - 9.0) ** 2, axis=1).reshape(-1, 1)


e = EGO(xlimits=np.array([[0.0, 4.0]]), criterion="SBO", n_iter=1, n_start=3, n_max_optim=20, xdoe=np.array([[0.5], [1.0], [3.0]]), surrogate=Model(print_global=False), random_state=1)
x_opt, _, _, x_data, _ = e.optimize(fun)
pts = np.vstack(seen + [x_data, np.atleast_2d(x_opt)])
assert pts.min() >= -1e-9 and pts.max() <= 4.0 + 1e-9, pts
""", "an inner optimisation whose starts all fail and which is tried again", "the second attempt is not kept within the limits: the function is evaluated outside them")

plant("c12-lhs-centred-shift", "C12", [("smt/sampling_methods/lhs.py", """        if self.options["criterion"] != "ese":
            return lhs(
                nx,
                samples=nt,
                criterion=self.options["criterion"],
                random_state=self.random_state,
            )
""", """        if self.options["criterion"] != "ese":
            samples = lhs(
                nx,
                samples=nt,
                criterion=self.options["criterion"],
                random_state=self.random_state,
            )
            if self.options["criterion"] in ("corr", "m"):
                samples = samples + 0.5 / nt
            return samples
""")], """
import numpy as np
from smt.sampling_methods import LHS
lim = np.array([[-2.0, 3.0], [10.0, 11.0]])
for crit in ("center", "maximin", "centermaximin", "correlation", "c", "m", "cm", "corr", "ese"):
    for seed in range(8):
        x = LHS(xlimits=lim, criterion=crit, random_state=seed)(7)
        assert np.all(x >= lim[:, 0] - 1e-12) and np.all(x <= lim[:, 1] + 1e-12), (crit, seed, x)
""", "the criteria given as corr or m", "the samples are shifted by half a stratum and can leave the domain")
