SM = "smt/surrogate_models/"
P("C01", "The caller's data is never modified",
  "No public operation (giving training data, training, predicting, sampling, evaluating a problem, optimising, measuring an error) changes an array, list or dictionary that belongs to the caller: training inputs and outputs, prediction points, limits, initial designs, or a value given as an option. Whatever the operation needs to scale, fold, sort, flatten or adjust it does on copies.",
  ["inputs", "configurations", "histories"], "all data, all admissible option values, all orders of the public operations of every surrogate, sampling method, problem and application",
  "Tests look at returned values; no test compares its own arrays before and after, and the in-place statement is often reached only under one option value.",
  [SM + "surrogate_model.py", SM + "krg_based.py", "smt/applications/mfk.py", "smt/applications/ego.py", "smt/applications/vfm.py", "smt/sampling_methods/full_factorial.py", "smt/applications/mixed_integer.py"],
  [("copies made when training data is stored", SM + "surrogate_model.py set_training_values"), ("normalisation works on copies", "smt/utils/kriging_utils.py standardization"), ("discrete casting copies its input", "smt/applications/mixed_integer.py cast_to_discrete_values")])
claim("C01", AI + " (allocation-site heap; ownership of every in-place update)", NOTE)

P("C02", "Models keep private copies of the training data",
  "After training data was given to a model, and after training it, no array of the caller is part of the model. Changing the array afterwards therefore changes neither the model, nor a later training, nor a later prediction.",
  ["inputs", "histories", "configurations"], "all training data (values, updated values, derivatives, several fidelities), every surrogate model, mixture of experts and mixed-integer model, all option values",
  "A test would have to modify its training arrays after handing them over; none does, and aliasing only shows for inputs that need no conversion.",
  [SM + "surrogate_model.py", "smt/applications/moe.py", "smt/applications/mfk.py", "smt/applications/mixed_integer.py"],
  [("np.array copies in the training data store", SM + "surrogate_model.py set_training_values/update_training_values/set_training_derivatives"), ("copies kept by the mixture of experts", "smt/applications/moe.py set_training_values")])
claim("C02", AI + " (heap reachability)", NOTE)

P("C03", "Predicting does not change a model, and results are the caller's own",
  "Predicting values, derivatives, variances or output derivatives (and evaluating a benchmark problem) leaves the model, its options, classes and modules as they were, so predictions do not depend on earlier predictions. Every array returned is fresh: it shares no memory with the model or with the arguments, so modifying a result cannot disturb a later prediction.",
  ["inputs", "histories", "configurations"], "all prediction points and all sequences of prediction calls on every trained model, all option values; timing records kept for printing are excluded",
  "Tests predict once or twice on one model and never modify a returned array before predicting again.",
  [SM + "surrogate_model.py", SM + "krg_based.py", SM + "krg_mgp.py", SM + "rmts.py", SM + "genn.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/problems/problem.py"],
  [("prediction points are copied before they are scaled", SM + "surrogate_model.py predict_values"), ("multi-fidelity variances computed in locals", "smt/applications/mfk.py predict_variances_all_levels")])
claim("C03", AI + " (freshness epochs of every write; aliasing of every result)", NOTE)

P("C04", "Training again gives the model that training once would give",
  "Training starts from the training data and the options alone: it reads nothing that an earlier training or prediction of the same model computed. When it ends, every option has the value the user gave it and the stored training data is unchanged, so training twice, or training after predicting, gives the same model as training once.",
  ["histories", "inputs", "configurations"], "all sequences train-predict-train on every surrogate model, mixture of experts, variable-fidelity and mixed-integer model; all option values (for Kriging models each noise configuration on its own)",
  "No test trains one model object twice and compares; state that leaks between trainings only shows in the second one.",
  [SM + "krg_based.py", SM + "krg_mgp.py", SM + "gekpls.py", SM + "rmts.py", SM + "rmtc.py", SM + "rbf.py", SM + "genn.py", "smt/applications/mfk.py", "smt/applications/vfm.py"],
  [("options restored after training", SM + "krg_based.py _train"), ("solver options restored", SM + "rmts.py _solve_for_x"), ("per-training counters reset", SM + "krg_based.py")])
claim("C04", AI + " (freshness epochs of every read in a second training; option values after training)", NOTE)

P("C11", "Predicted variances are never negative",
  "predict_variances returns no negative number, at any point, for any training data, in every surrogate model, the mixture of experts and the mixed-integer model: rounding in the variance formula is cut off at zero (or the formula is a sum of squares).",
  ["inputs", "configurations"], "all training data, prediction points and option values of every model that predicts variances",
  "Negative variances come from cancellation near training points or ill-conditioned data; tests look at a few points. Users take the square root of the variance (EGO does).",
  [SM + "krg_based.py", SM + "krg_mgp.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/applications/mixed_integer.py"],
  [("negative values forced to zero", SM + "krg_based.py _predict_variances"), ("multi-fidelity variances", "smt/applications/mfk.py predict_variances_all_levels")])
claim("C11", AI + " (value intervals)", NOTE)

P("C13", "A prediction at a point does not depend on the other points of the call",
  "Predicting (values, derivatives, variances) or evaluating a benchmark problem at several points at once gives at each point what a call with that point alone gives: no statistic of the batch (mean, maximum, sum, norm over the points), and no fixed point of the batch, enters the result of another point.",
  ["inputs"], "all batches of points, every surrogate model, application and benchmark problem (predict_variance_derivatives is documented for a single point)",
  "Tests predict whole grids at once and compare with a tolerance, so a dependence on the batch stays unseen.",
  [SM + "krg_based.py", SM + "genn.py", SM + "rmts.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/problems/lp_norm.py", "smt/utils/kriging_utils.py"],
  [("normalisation uses the training data only", SM + "krg_based.py _predict_values"), ("probabilities normalised point by point", "smt/applications/moe.py")])
claim("C13", AI + " (symbolic shapes, marked values)", NOTE)

P("C23", "Objects are independent of each other",
  "Using one object (model, sampling method, problem, optimiser) changes no class attribute, no module-level variable or container, and no default argument, and keeps no results in a memo shared by the process. So no object can influence another one, whatever is done with it and in whatever order.",
  ["histories", "configurations"], "all public operations of all objects, all option values",
  "Each test uses fresh objects and rarely two of the same class; shared state shows only when a second object is used after the first with other data.",
  [SM + "surrogate_model.py", "smt/utils/options_dictionary.py", "smt/applications/application.py", "smt/applications/moe.py", "smt/utils/neural_net/model.py", "smt/sampling_methods/sampling_method.py"],
  [("options created per instance", "smt/utils/options_dictionary.py"), ("default surrogate created per instance", "smt/applications/ego.py _initialize")])
claim("C23", AI + " (origin of every object written)", NOTE)

P("C08", "Seeds control the randomness, and only that",
  "No operation reseeds or replaces the random generator of the process. Where an object has a seed or random_state option (Latin hypercube sampling, Bayesian optimisation, neural networks), with a seed or a generator given, every random number it draws for itself comes from a generator built from that option and from no other source, so equal seeds give equal results whatever else the program draws.",
  ["inputs", "histories", "configurations"], "all admissible option values and all operations; the hyperparameter search of the Kriging models has no seed and is left out of the seed of EGO",
  "Tests seed the generator of the process first, so a draw that escapes the seed is not seen.",
  ["smt/sampling_methods/lhs.py", "smt/applications/ego.py", SM + "genn.py", "smt/utils/neural_net/model.py", SM + "krg_based.py"],
  [("generator built from random_state", "smt/sampling_methods/lhs.py _initialize"), ("generator passed to the sampling and the virtual points", "smt/applications/ego.py _setup_optimizer/_get_virtual_point"), ("minibatches and initial weights", "smt/utils/neural_net/model.py")])
claim("C08", AI + " (origin of the generator of every draw)", NOTE)

P("C09", "Models do what they advertise and refuse what they do not",
  "The table of capabilities of a trained model is truthful: an operation it advertises (derivatives, variances, variance derivatives, output derivatives) can return a result, and an operation it does not advertise always raises an exception and never returns a number.",
  ["inputs", "configurations"], "every surrogate model, all data and option values",
  "Tests exercise the advertised operations of some models; no test calls an operation on each model that does not advertise it, or checks each advertised one.",
  [SM + "surrogate_model.py", SM + "krg_based.py", SM + "krg_mgp.py", SM + "gekpls.py", "smt/applications/mfk.py", SM + "genn.py"],
  [("support check before each operation", SM + "surrogate_model.py predict_derivatives/predict_variances/predict_output_derivatives"), ("capability tables", SM + "*.py _initialize")])
claim("C09", AI + " (capability table against the feasible returns of each operation)", NOTE)

P("C15", "Results have the documented shape",
  "Predicted values, derivatives and variances are two-dimensional with one row per point and one column per output (one column for variances), benchmark problems return one column, sampling methods return the requested number of points with one column per input, on every path and for every number of points, inputs and outputs; no public operation ends without a result. (MGP returns flat values and variances by design.)",
  ["inputs", "configurations"], "all numbers of points, inputs, outputs and samples; every surrogate model, application, sampling method and benchmark problem; all option values",
  "Tests use few sizes, often a single input or output, where broadcasting hides a wrong shape.",
  [SM + "surrogate_model.py", SM + "krg_based.py", SM + "rmts.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/problems/problem.py", "smt/sampling_methods/lhs.py", "smt/sampling_methods/full_factorial.py"],
  [("results reshaped to one row per point", SM + "surrogate_model.py predict_values"), ("one column per problem value", "smt/problems/*.py _evaluate"), ("exactly the requested number of samples", "smt/sampling_methods/*.py _compute")])
claim("C15", AI + " (symbolic shapes of every return)", NOTE)

P("C22", "Malformed calls are refused and change nothing",
  "Calls with arguments of the wrong form raise an exception instead of computing something: points with the wrong number of columns or rank or that are no array, training outputs or derivatives whose number of points differs from the inputs or from the data they replace, updates of data that was never set, derivatives of a problem for a negative or fractional variable index. A refused call leaves the model or problem exactly as it was.",
  ["inputs", "histories"], "all sizes; every surrogate model and benchmark problem, before and after training",
  "Tests pass well-formed arguments; what happens to the object after a refused call is never looked at.",
  [SM + "surrogate_model.py", "smt/utils/checks.py", "smt/problems/problem.py", "smt/applications/mfk.py", SM + "krg_mgp.py"],
  [("form of arrays", "smt/utils/checks.py ensure_2d_array"), ("number of inputs", "smt/utils/checks.py check_nx"), ("consistency of training data", SM + "surrogate_model.py set_training_values/update_training_values/update_training_derivatives"), ("checks of problems", "smt/problems/problem.py __call__")])
claim("C22", AI + " (feasible returns and writes of refused calls)", NOTE)

P("C18", "Errors reach the caller and no result is dropped",
  "An error that a computation detects is raised and reaches the caller: no exception is built without being raised, no handler absorbs an error except at the declared recovery points (ill-conditioned correlation matrices, retried likelihood optimisations, missing cache files, failed starts of the acquisition optimiser), no error is suppressed, and no finally block leaves while an error is on its way. No statement computes a value and drops it: results of functions without side effects, and of linear-algebra calls that are merely allowed to overwrite their arguments, are used.",
  ["inputs", "faults"], "all functions of the library",
  "Tests of error cases are few; a dropped result or a swallowed error shows only for inputs that reach it.",
  ["smt/applications/moe.py", "smt/utils/linear_solvers.py", "smt/utils/silence.py", SM + "krg_based.py", "smt/utils/caching.py", "smt/applications/ego.py"],
  [("retries of the likelihood optimisation", SM + "krg_based.py _optimize_hyperparam"), ("solution written in place", "smt/utils/linear_solvers.py DenseCholeskySolver._solve"), ("empty list of experts", "smt/applications/moe.py _get_enabled_expert_types")])
claim("C18", "static analysis: lint over the resolved syntax tree (discarded values, unraised and swallowed errors)", "Handlers are judged by what they catch and whether they raise; whether a declared recovery point recovers sensibly is not decided. Results bound to a name that is never read are not reported.")

P("C20", "print_global=False makes a model silent",
  "A surrogate model built with print_global=False prints nothing, whatever the data, the options and the operations: neither messages of training and prediction nor warnings of the hyperparameter optimisation, of the neural network or of the linear solvers. Switching print_global off later silences everything that follows, and with print_prediction=False predictions print nothing. This also holds when the mixed-integer model wraps a silent model.",
  ["inputs", "configurations", "histories"], "every surrogate model, every data set and option value, all solvers of the tensor-product splines; the mixed-integer model around silent models",
  "Tests silence the output stream as a whole; warnings are printed only for data or failures that tests do not produce.",
  [SM + "surrogate_model.py", SM + "krg_based.py", SM + "genn.py", "smt/utils/printer.py", "smt/utils/linear_solvers.py", "smt/utils/neural_net/optimizer.py"],
  [("activity of the printer", SM + "surrogate_model.py train/predict_values/predict_derivatives"), ("printer obeys its switch", "smt/utils/printer.py Printer.__call__"), ("warnings of the Kriging models", SM + "krg_based.py _optimize_hyperparam")])
claim("C20", AI + " (reachability of print under fixed option values)", NOTE)

P("C24", "No operation fails for want of a value",
  "In every function, on every path, each name is bound before it is used and exists; every function that returns a result returns one on every path; arguments of calls between parts of the library fit the called signatures in every class that overrides the method; and every attribute an operation of a model, problem, sampling method or optimiser reads has been set by then, whatever options were chosen and whatever branches the training took.",
  ["inputs", "configurations"], "all paths of all functions under the declared values of options, assuming that loops over data and iterations run at least once; attributes along the lives of every public object",
  "An unbound name, missing attribute or missing result fails only on the path that needs it; tests take few combinations of options.",
  [SM + "krg_based.py", SM + "rmts.py", "smt/utils/line_search.py", "smt/utils/misc.py", "smt/utils/kriging_utils.py", "smt/applications/vfm.py", "smt/applications/mfk.py"],
  [("paths without a bracket", "smt/utils/line_search.py BracketedLineSearch"), ("cases of the correlation functions", "smt/utils/kriging_utils.py"), ("attributes set by training", SM + "krg_based.py _new_train")])
claim("C24", "static analysis: path-sensitive definite assignment, call signatures and result completeness; attributes by whole-program abstract interpretation", NOTE)

P("C05", "Options accept what they declare and hold what they are given",
  "Every model, sampling method, problem, optimiser, application and linear solver can be made with the defaults it declares, and refuses an option it does not declare and a value its declaration does not admit (not among the listed values, not of a listed type), at construction, in an assignment and in an update; a refused assignment leaves the options as they were. An admitted value reads back exactly as given, in that object only: other objects of the class, made before or after, and copies of an options dictionary, are not affected.",
  ["inputs", "configurations"], "every declared option of every public class: every listed value, both values of flags, one value of each simple type; as excluded values undeclared names, objects of foreign classes and unlisted texts",
  "Tests set valid options; a declaration that is not enforced, or an option that is silently replaced, shows only for the one value that nobody tried.",
  ["smt/utils/options_dictionary.py", SM + "*.py", "smt/applications/*.py", "smt/sampling_methods/*.py", "smt/problems/*.py", "smt/utils/linear_solvers.py"],
  [("validation", "smt/utils/options_dictionary.py OptionsDictionary._assert_valid"), ("options given at construction", SM + "surrogate_model.py __init__"), ("declarations", SM + "krg_based.py _initialize")])
claim("C05", AI + " (with the real options dictionary; constants)", NOTE)

P("C10", "Results are in the units of the data",
  "Changing the units in which inputs or outputs are measured changes nothing but the units of the results: predicted values are in the unit of the outputs and move with their origin, derivatives are in outputs per unit of the inputs, variances in outputs squared and their derivatives in outputs squared per unit of the inputs, and derivatives with respect to the training outputs are pure numbers; none of them but the values depends on the origins. Samples are in the unit of the limits and move with them; the optimum that EGO returns, its input, and the data it collected are in the units of the limits and of the function; and nothing on the way adds, compares or exponentiates quantities of different units.",
  ["inputs", "configurations"], "Kriging family, co-Kriging, LS, GENN, variable fidelity, mixed integer, sampling and EGO for both units; QP, RBF and IDW for the unit of the outputs; the RMTS models minimise an energy that mixes powers of the outputs by design and are excluded, as is MOE, which clusters inputs and outputs together",
  "Tests use data of order one in one system of units and compare with loose tolerances; a missing scale factor or offset cancels there.",
  [SM + "krg_based.py", SM + "krg_mgp.py", SM + "ls.py", SM + "qp.py", SM + "rbf.py", SM + "idw.py", SM + "genn.py", "smt/applications/mfk.py", "smt/applications/vfm.py", "smt/applications/ego.py", "smt/sampling_methods/*.py"],
  [("standardisation and its inverse", SM + "krg_based.py _predict_values/_predict_derivatives/_predict_variances"), ("units of the derivatives of the prediction in the hyperparameters", SM + "krg_mgp.py _predict_value_derivatives_hyper"), ("acquisition functions", "smt/applications/ego.py EI/SBO/UCB"), ("limits to samples", "smt/sampling_methods/sampling_method.py __call__")])
claim("C10", AI + " with units of measure", NOTE)

P("C12", "Samples and evaluated points stay inside the limits",
  "Every sample that a sampling method returns lies within the limits it was given, in every input; nested designs do so on every level. EGO evaluates the user's function only at points within its limits (as long as the initial points given to it are), both in the initial design and in every iteration, whatever the criterion, the strategy for parallel points and the surrogate; and the points it collects and the optimum it returns lie within the limits too.",
  ["inputs", "histories", "configurations"], "all sampling methods and nested designs over all limits, numbers of points and options; EGO with continuous inputs over all criteria, and with mixed inputs from a given design (sampled mixed designs are reported undecided)",
  "Tests sample a few designs in one box, mostly around zero, and look at their number; that a sample or a candidate leaves the box for some limits, seed or failed inner optimisation needs every value to be followed.",
  ["smt/sampling_methods/*.py", "smt/applications/ego.py", "smt/applications/mfk.py", "smt/applications/mixed_integer.py"],
  [("unit cube to limits", "smt/sampling_methods/sampling_method.py _scale_to_xlimits"), ("points in the unit cube", "smt/sampling_methods/{random,lhs,full_factorial}.py _compute"), ("inner optimisation within bounds", "smt/applications/ego.py _find_best_point"), ("nested designs", "smt/applications/mfk.py NestedLHS.__call__")])
claim("C12", AI + " with positions relative to the limits", NOTE)

P("C06", "No option or argument is ignored",
  "Whatever a class lets the user choose is used: every declared option of a surrogate model, sampling method, problem, optimiser, application or linear solver is read, and what is read reaches a use, in some operation of an object of that class; no operation reads an option that its class does not declare; and every parameter of a library function is used by it. An option or an argument that is accepted and then ignored breaks this.",
  ["inputs", "configurations"], "every declared option of every public class, over all option combinations and data; every parameter of every function of the library",
  "A test sets an option and looks at the result; that each of some 200 options in each of 40 classes is honoured is beyond any table of examples.",
  [SM + "*.py", "smt/applications/*.py", "smt/sampling_methods/*.py", "smt/problems/*.py", "smt/utils/linear_solvers.py"],
  [("declared options", SM + "krg_based.py _initialize"), ("options of the splines", SM + "rmts.py _initialize"), ("options of the linear solvers", "smt/utils/linear_solvers.py _initialize"), ("options of the optimiser", "smt/applications/ego.py _initialize")])
claim("C06", AI + "; reaching definitions; unused parameters", NOTE)

P("C07", "Every admissible value of an option works and is told apart",
  "Each value an option lists as admissible, and both values of each flag, can be used: it is not refused, and it does not make every training, prediction, sampling, evaluation or optimisation fail. Two different values of an option are never treated exactly alike by all the code that reads it.",
  ["inputs", "configurations"], "every listed value of every option of every public class, under unknown values of the other options and unknown data; values a class refuses with a ValueError as a matter of its definition (the activation kernel outside MGP, other kernels in MGP) are listed in smtlint/rules.py",
  "Tests try a few values in one setting each; several listed values had never been used in a test.",
  [SM + "*.py", "smt/sampling_methods/*.py", "smt/problems/*.py", "smt/applications/ego.py", "smt/applications/moe.py", "smt/utils/kriging_utils.py", "smt/utils/linear_solvers.py", "smt/utils/line_search.py"],
  [("correlations by name", SM + "krg_based.py _correlation_types"), ("solvers by name", "smt/utils/linear_solvers.py get_solver"), ("line searches by name", "smt/utils/line_search.py get_line_search_class"), ("criteria by name", "smt/applications/ego.py _find_best_point")])
claim("C07", AI + " (one interpretation per admissible value)", NOTE)

P("N01", "Interpolating models reproduce their training data",
  "Models without regularisation or noise return the training outputs at the training inputs, up to the nugget.", ["inputs"], "all training data",
  "Tests check a few functions.", [SM + "krg_based.py", SM + "rbf.py", SM + "idw.py"], [("linear systems solved in training", SM + "krg_based.py _reduced_likelihood_function")])
na("N01", "A statement about the numerical solution of linear systems for every data set; no static argument bounds it, and the structural parts (data kept, prediction pure, scaling consistent) are C02-C04 and C10.")
P("N02", "Derivatives equal the slope of the values",
  "Predicted derivatives are the limit of difference quotients of predicted values, and benchmark problems' derivatives those of their values.", ["inputs"], "all points",
  "Tests compare finite differences at a few points.", [SM + "surrogate_model.py", "smt/problems/problem.py"], [("derivative formulas", SM + "krg_based.py _predict_derivatives")])
na("N02", "Equality of two numerical expressions for every input; deciding it from the source would be symbolic computation, not a dataflow or structural fact. The physical dimension of the derivative is decided by C10.")
P("N03", "Latin hypercube designs are space filling and optimal for their criterion",
  "Each one-dimensional projection has one point per stratum and optimised designs are no worse than unoptimised ones.", ["inputs"], "all sizes and seeds",
  "Tests use one size.", ["smt/sampling_methods/lhs.py"], [("exchange optimisation", "smt/sampling_methods/lhs.py _maximinESE")])
na("N03", "A property of the values of random permutations and of an optimisation loop; nothing in the shape of the code decides it.")
P("N04", "Hyperparameters maximise the likelihood; optimisation runs converge",
  "Trained hyperparameters are a maximiser of the likelihood over the bounds, and Bayesian optimisation converges to the optimum.", ["inputs"], "all data and objective functions",
  "Tests have tolerances on few functions.", [SM + "krg_based.py", "smt/applications/ego.py"], [("COBYLA/TNC restarts", SM + "krg_based.py _optimize_hyperparam")])
na("N04", "Outcome of iterative numerical optimisation on arbitrary functions; no static method reaches it.")
