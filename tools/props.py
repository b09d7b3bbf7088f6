ORACLE, NOTE, NA = {}, {}, {}
STD = ("Holds on every generated case (numbers and samples in the evidence file); nothing is claimed beyond the "
       "generated sizes. Trusts numpy/jax arithmetic and the reference implementation in /verif. ")

P("C01", "Affine matrix modules evaluate the documented affine Hermitian form",
  "For every input, an affine matrix module (Hermitian, low-rank Hermitian or general tensor) returns, for each sample, the bias "
  "tensor (if enabled) plus the feature-weighted sum of its parameter tensors, plus the documented smoothing term for matrices. "
  "The result of the Hermitian variants is exactly Hermitian for every parameter value that can be set, is linear in the parameters and affine in the input when "
  "smoothing is off, and each sample's result depends on that sample alone. Arrays anywhere in a PyTree are treated leaf by leaf or as documented.",
  ["inputs", "configurations"],
  "all feature counts, matrix sizes, ranks, bias on/off, smoothing values, parameter values (also non-Hermitian arrays given by a caller), PyTrees, batch sizes and dtypes",
  "unit tests evaluate one or two sizes with one seed; sign, conjugation, index order and smoothing mistakes that vanish for symmetric, real or small cases need the whole space",
  ["modules/affinehermitianmatrix.py", "modules/lowrankaffinehermitianmatrix.py", "modules/affinetensor.py", "modules/_smoothing.py"],
  [("_get_callable of the affine modules", "modules/affinehermitianmatrix.py"), ("exact smoothing term", "modules/_smoothing.py")],
  ["module outputs"])
ORACLE["C01"] = "an explicit numpy sum over features, plus Hermiticity/linearity invariants"
NOTE["C01"] = STD

P("C02", "Eigenvalue/eigenvector modules return the requested part of the spectrum",
  "For every Hermitian input, the eigen-modules return exactly the requested number of eigenvalues selected by the requested rule "
  "(smallest, largest, by magnitude, exterior, interior, and so on) in ascending order, and the eigenvectors belonging to them as orthonormal columns in "
  "the same order. This holds for degenerate, zero and indefinite spectra, for every matrix in a batch independently and every leaf of a PyTree; asking for more eigenpairs than a matrix has, or of input that is not square, is refused.",
  ["inputs", "configurations"],
  "all Hermitian matrices of the generated sizes (degenerate, zero, diagonal, indefinite), all selection rules, all counts, PyTrees, batches",
  "tests use a few matrices with well separated spectra and a few rules; ties, odd counts and interior selections are what break",
  ["eigen_util.py", "modules/eigenvalues.py", "modules/eigenvectors.py", "modules/eigensystem.py"],
  [("select_eigenpairs_by_which", "eigen_util.py")], ["module outputs"])
ORACLE["C02"] = "numpy's full eigendecomposition and an independent selection rule"
NOTE["C02"] = STD

P("C03", "Observable sums and packaged PMM modules compute their documented formulas",
  "Expectation-value sums and squared-transition-amplitude sums return the documented real sums over states and observables, "
  "independent of the phases of the state vectors, with the documented centring terms. The packaged eigenvalue and observable models equal the composition of the matrix, eigen and "
  "observable modules with the same parameters, for every configuration.",
  ["inputs", "configurations"],
  "all sizes, numbers of states/observables/outputs, parameters, options (centered or not, bias, smoothing, selection rule), PyTrees and batch sizes",
  "tests compare single configurations; conjugation and index-order mistakes cancel for real or symmetric cases",
  ["modules/expectationvaluesum.py", "modules/transitionamplitudesum.py", "modules/affineeigenvaluepmm.py", "modules/affineobservablepmm.py"],
  [("observable contractions", "modules/expectationvaluesum.py"), ("packaged composition", "modules/affineobservablepmm.py")], ["module outputs"])
ORACLE["C03"] = "explicit loops over states and observables in numpy and composition of the parts"
NOTE["C03"] = STD

P("C04", "Contraction, neural-network and elementwise modules compute their formulas",
  "Einstein-sum and matrix-product modules equal the contraction they declare between their parameter arrays and the data in the declared "
  "order (also through the declared order of PyTree leaves), linear layers equal activation(Wx+b), bias, PReLU, constants and function modules "
  "equal their formulas, and each activation module equals its jax.nn/jax.numpy counterpart with the given options, for every leaf of a PyTree. "
  "Parameters that are given are used as given and parameters that are inferred have the inferred sizes.",
  ["inputs", "configurations"],
  "all contraction strings and dimension maps of the grammar, numbers of operands, leaf orders, separators, layer sizes, options, PyTrees, batch sizes",
  "tests have a handful of strings and one PyTree; dimension inference and operand order have combinatorially many cases",
  ["modules/einsum.py", "modules/matmul.py", "modules/linearnn.py", "modules/bias.py", "modules/prelu.py", "modules/constant.py", "modules/funcbase.py",
   "modules/activationbase.py", "modules/_autogenerated_activationfuncs.py"],
  [("dimension inference and operand assembly", "modules/einsum.py"), ("shape handling", "modules/matmul.py")], ["module outputs", "module parameters"])
ORACLE["C04"] = "numpy.einsum/matmul with operands assembled by the harness, and closed formulas"
NOTE["C04"] = STD

P("C05", "Structural modules only move data, never change or mix it",
  "Reshaping, flattening, tree-flattening, key selection/rearrangement and leaf concatenation return every selected input value exactly once, "
  "unchanged, at the position that the requested shape, path or leaf order determines. Samples are never mixed, and the batch axis is never reshaped or concatenated over. Keys and indices that a container does not have, and shapes or structures that do not fit, are refused.",
  ["inputs", "configurations"],
  "all PyTrees, leaf shapes, target shapes (inferred dimensions, per-leaf targets), path specifications, leaf orders, axes, separators and batch sizes",
  "tests use fixed small trees; order of leaves (numeric-looking keys, nesting), negative axes and missing feature axes are not covered",
  ["modules/reshape.py", "modules/flatten.py", "modules/treeflatten.py", "modules/treekey.py", "modules/concatenateleaves.py", "tree_util.py"],
  [("path lookup", "tree_util.py"), ("per-leaf reshape", "modules/reshape.py")], ["module outputs"])
ORACLE["C05"] = "numbered values tracked by an independent flattening"
NOTE["C05"] = STD

P("C06", "The output shape a module or model declares is the shape it returns",
  "For every module and model, and every input shape it accepts, the output shape declared before compilation, the one declared after compilation and the "
  "structure and shape of the actual output (without the batch axis) are the same, for every batch size. An input shape that a module cannot process is "
  "refused when its shape is asked for or it is compiled, at the latest, and a model refuses data of another shape or structure than it was compiled for. "
  "Asking for shapes has no side effects.",
  ["inputs", "programs", "configurations"],
  "all pipelines and graphs of modules the generator can fit together, PyTree inputs and batch sizes",
  "tests assert shapes for single modules and single inputs; chains of modules rely on every shape function being right for every structure",
  ["modules/basemodule.py", "sequentialmodel.py", "nonsequentialmodel.py", "modules/reshape.py", "modules/eigenvalues.py"],
  [("get_output_shape of every module", "modules/basemodule.py"), ("shape progression", "nonsequentialmodel.py")], ["get_output_shape", "outputs"])
ORACLE["C06"] = "actual outputs and shapes inferred by the generator"
NOTE["C06"] = STD

P("C07", "A sequential model is the composition of its modules in order",
  "A sequential model's output for any input equals applying its modules one after the other, in the flattened order of the container they are "
  "stored in (nested lists, tuples, dictionaries by sorted key, sub-models), each with its own parameters and state. Each module's new state is returned at the module's own place, "
  "and grouping modules into sub-models or containers does not change the result.",
  ["inputs", "programs"],
  "all pipelines of modules (stateful ones included), containers, nestings, parameters and batch sizes the generator produces",
  "tests use short lists of modules; wiring of parameters/states in nested containers is only visible with non-commuting modules",
  ["sequentialmodel.py", "model.py"],
  [("flattening and folding of module callables", "sequentialmodel.py")], ["model outputs", "returned state"])
ORACLE["C07"] = "applying the modules one by one"
NOTE["C07"] = STD

P("C08", "A non-sequential model computes the dataflow graph it is given",
  "For every acyclic set of connections between module inputs/outputs (whole values, subtrees or leaves; explicit, implicit or partly explicit targets; any separator; any valid "
  "module names), the output is the value obtained by evaluating each module once on exactly the inputs connected to it, with several values sent to one place collected in connection order into the free indices. "
  "The order of explicit connections, module naming and unused modules do not matter. Graphs that are cyclic, lack an input or output, or misuse reserved names are rejected.",
  ["inputs", "programs"],
  "all module trees and connection dictionaries of the generator, and all directed graphs up to nine nodes for the ordering",
  "tests contain a few fixed graphs; ordering, implicit indices and path prefixes have a combinatorial space",
  ["nonsequentialmodel.py", "graph_util.py", "tree_util.py"],
  [("concretization of connections", "graph_util.py"), ("topological order", "graph_util.py"), ("assembly of inputs", "nonsequentialmodel.py")],
  ["model outputs", "execution order"])
ORACLE["C08"] = "a lazy reference interpreter of the connection strings"
NOTE["C08"] = STD

P("C09", "PyTree operations act on every leaf and keep structure and row alignment",
  "Looking up, setting and extending PyTrees by path address exactly the named node for every separator and every kind of key, and leave the rest alone. "
  "Arithmetic, reductions, norms, comparisons and casts of PyTrees equal the same operation on each array leaf (or on all leaves together), whatever the structure and "
  "however different the leaf shapes. Slicing, splitting, concatenating, batching and permuting along the batch axis apply the same rows to every leaf, lose and duplicate nothing, and never mutate their input.",
  ["inputs"],
  "all nested lists/tuples/dictionaries of arrays (also without feature axes, complex, integer), all paths, axes, batch sizes and permutations",
  "almost every other guarantee is built on these helpers; tests touch them only indirectly with flat or uniform trees",
  ["tree_util.py", "model_util.py"],
  [("path access", "tree_util.py"), ("leafwise arithmetic and batching", "tree_util.py")], ["function results"])
ORACLE["C09"] = "an independent recursive implementation on plain Python containers and numpy arrays"
NOTE["C09"] = STD

P("C10", "Batching, sample order and repeated calls do not change predictions",
  "A model's prediction for a sample does not depend on which other samples are in the call, on their order, on the batch limit, on padding used to avoid recompilation, or on previous calls. "
  "State is passed from batch to batch in order, is changed on the model only when asked to, and parameters, state and inputs are otherwise left untouched by a call. The requested precision is the precision of the result.",
  ["inputs", "operation sequences"],
  "all models of the generator, batch sizes, batch limits, padding modes, dtypes and histories of calls on one model object",
  "tests call a model once or twice with one batch limit; remainders, limits larger than the data, padding and cached compiled functions need sequences",
  ["model_util.py", "model.py"],
  [("autobatch", "model_util.py"), ("__call__ and its caches", "model.py")], ["model outputs", "model state"])
ORACLE["C10"] = "evaluating samples one by one in fresh models, and snapshots of parameters, state and inputs"
NOTE["C10"] = STD

P("C11", "Derivatives are those of the model's predictions",
  "For every model, input and parameter values, grad_input and grad_params return the derivatives of the predictions of each sample with respect to that sample's inputs and to all parameters: "
  "structure of the output above that of the inputs/parameters, one row per sample, equal to finite differences of the model's own output. Forward and reverse mode, batch limits and padding give the same derivatives, "
  "they follow changes of the parameters, and computing them changes nothing on the model.",
  ["inputs", "operation sequences"],
  "all models of the generator (sequential and graph, real and complex parameters, PyTree inputs and outputs, state), modes, batch limits and histories of derivative calls",
  "the tests contain no derivative of a PyTree, batched or stateful model; transposed Jacobians or stale caches show only for unequal sizes and repeated calls",
  ["model.py", "model_util.py"],
  [("grad_input/grad_params", "model.py"), ("autobatch", "model_util.py")], ["grad_input", "grad_params"])
ORACLE["C11"] = "Richardson-extrapolated finite differences of the model's own predictions along random directions"
NOTE["C11"] = STD

P("C12", "Copying, saving and loading reproduce the model exactly",
  "Copying, serializing or saving (plain or compressed, to a path or file) any model or module at any moment - before or after compilation, after training, freezing, setting parameters or precision - and restoring it gives "
  "a model with the same structure, hyperparameters, parameters, state, frozen flags, names, shapes, random key and optimizer state, bit for bit. Its predictions, derivatives, further training and further copies agree with the original's, "
  "and neither of the two is affected by what is done to the other afterwards. Data of another package version are read as well, but refused if strict versions are asked for; a module's upgrade is applied to data of another version of that module.",
  ["inputs", "operation sequences"],
  "all module kinds and options of the package, user modules, sequential, graph and nested models, histories of compile/train/freeze/set before the copy and after it",
  "tests save a handful of trained models; a hyperparameter missing from one module's dictionary or a container that changes type is only visible for non-default values",
  ["model.py", "modules/basemodule.py", "nonsequentialmodel.py", "model_util.py"],
  [("serialize/deserialize", "model.py"), ("serialize/deserialize", "modules/basemodule.py"), ("get/set_hyperparameters", "modules")],
  ["restored model", "saved file"])
ORACLE["C12"] = "the original model itself: bitwise equal facts and predictions before and after, and through repeated round trips"
NOTE["C12"] = STD

P("C13", "Training runs the documented loop and keeps the best result",
  "A training call makes, in every epoch, exactly one optimizer step per batch, uses every training sample exactly once per epoch with inputs, targets and uncertainties of a sample kept together and the order reshuffled, "
  "evaluates the validation loss over all validation samples once per epoch independently of the validation batch size, and stops after the requested epochs, when the target loss is reached or when patience runs out. "
  "Afterwards parameters, state and optimizer state are those of the best validation loss; frozen modules are untouched whenever and wherever they were frozen. Resuming continues the optimizer, the same seeds give the same result, "
  "and a termination signal ends verbose training after the epoch with the best result kept and the caller's signal handlers restored. Data whose sample numbers, shapes or uncertainties do not belong together, and unknown losses, are refused without changing the model.",
  ["inputs", "operation sequences", "signals"],
  "all small models with real and complex parameters, frozen subsets, training options, sequences of validation losses (including NaN), histories of training calls and setting parameters between them, and epochs at which a signal arrives",
  "tests train one model to a loss threshold: wrong step counts, lost remainder samples, stale best parameters or trained frozen modules still reach such a threshold",
  ["training.py", "model.py"],
  [("training loop and Adam update", "training.py"), ("argument handling", "model.py"), ("signal handling", "training.py")],
  ["parameters", "state", "optimizer state", "loss function arguments", "signal handlers"])
ORACLE["C13"] = "an independent simulation of the documented loop, and a recording of every batch that the loss functions saw"
NOTE["C13"] = STD + "The interrupt check sends signals only to its own process."

P("C14", "Training follows the gradient of the named loss",
  "For every built-in loss (with and without uncertainties) and every structure of the model's output, the loss that training minimises and compares with the target is the documented formula over all samples and output entries, "
  "and each optimizer step uses the gradient of that loss with respect to the (real or complex) parameters, in forward and reverse mode alike, equal to finite differences of the model's own predictions.",
  ["inputs", "configurations"],
  "all loss names, output PyTrees with leaves of different shapes, real and complex outputs, uncertainties, batch sizes, and models made of the package's modules with any frozen subset",
  "tests only check that a loss decreases; a wrong weight between leaves, a conjugated complex gradient or a missing uncertainty still decreases it",
  ["training.py", "model.py", "tree_util.py"],
  [("loss functions", "training.py"), ("gradient conjugation", "training.py")], ["parameters after a step", "epochs run"])
ORACLE["C14"] = "the loss formulas in numpy and finite differences; the gradient is recovered from the parameter change of a single step with a huge eps"
NOTE["C14"] = STD + "Cases with nearly degenerate spectra or kinks (finite differences do not converge) are discarded and counted."

P("C17", "Scalers compute their formulas, invert exactly and survive saving",
  "A fitted scaler or encoder maps new data by its documented per-feature formula (mean/deviation, range, median/quantiles, one-hot code of known rows, each leaf by its own scaler), with every scalar, per-leaf and per-feature option, "
  "and with None or False leaving the feature alone. The inverse transform undoes it for all data, features that do not vary stay finite, unknown rows encode as zeros, samples and leaves do not influence each other, refitting forgets the previous fit, and a scaler serialized or saved in any way behaves identically.",
  ["inputs", "configurations", "operation sequences"],
  "all PyTrees of real data with one or more samples, all option forms, fitted and unfitted scalers, both precisions, all ways of saving",
  "tests scale one array per scaler with default options and unit-scale data; options per leaf, constant features and leaves of different sizes are not touched",
  ["preprocessing/standard_scaler.py", "preprocessing/minmax_scaler.py", "preprocessing/robust_scaler.py", "preprocessing/mixed_scaler.py", "preprocessing/onehot.py", "preprocessing/scaler.py"],
  [("fit/transform/inverse_transform", "preprocessing"), ("save/load", "preprocessing/scaler.py")], ["transformed data", "restored scaler"])
ORACLE["C17"] = "the documented formulas in numpy (double precision), round trips, and a newly fitted scaler"
NOTE["C17"] = STD

P("C18", "Conformal intervals cover the calibration data at the requested level",
  "After calibration with n samples, the interval returned for miscoverage alpha is the prediction plus/minus the quantile of the calibration scores (|residual| / uncertainty) times the uncertainty of the point, "
  "entry by entry of the output PyTree. It contains at least ceil((n+1)(1-alpha)) of the calibration samples for every output entry, uses no more than the next order statistic, and is unbounded when n is too small for alpha. "
  "Intervals are symmetric about the (bias-corrected) prediction and nested in alpha; several alphas (list, tuple or array) give a list in the same order equal to asking one by one, no alpha means the default one, levels outside (0, 1) and uncalibrated models are rejected. "
  "Results do not depend on earlier questions, earlier calibrations, saving and loading, batch sizes or the other samples in the call; calibration without targets uses the inputs as targets.",
  ["inputs", "configurations", "operation sequences"],
  "all calibration sets (3 to 20 samples), levels, forms of levels, output PyTrees, sensitivities and bias corrections, histories of calibrations, questions and restores",
  "tests check the shapes of one calibrated model and one saved copy; coverage at small n, order of several levels and stale quantiles after recalibration are not looked at",
  ["conformal/conformalizedmodel.py"],
  [("get_qhat", "conformal/conformalizedmodel.py"), ("__call__", "conformal/conformalizedmodel.py"), ("calibrate", "conformal/conformalizedmodel.py")],
  ["predictions and intervals", "quantiles"])
ORACLE["C18"] = "order statistics of the calibration scores, counting of calibration points inside, and freshly calibrated models"
NOTE["C18"] = STD

P("C19", "Conformal uncertainties equal the documented sum of sensitivities",
  "The uncertainty of a point is the sum of the parameter sensitivity, the input sensitivity (continuous features, scaled by the interquartile range of the training inputs, plus the term of the point's own input uncertainties) "
  "and the mean Gower distance to the training points within the cutoff (at least the distance to the nearest one; a categorical leaf counts 0 or 1; repeated training points count once), each divided by its median absolute deviation over the calibration set. "
  "Switching a sensitivity off, entirely or for single parameters or input leaves, removes exactly that part; without training data only the parameter part remains. Global or per-stratum bias corrections add the median calibration residual (zero for unseen strata) to predictions. "
  "Order of samples, batch size, and a common factor of the target uncertainties do not matter. Serialized or saved models (any file form, compressed or not) answer identically.",
  ["inputs", "configurations"],
  "all PyTrees of continuous and categorical inputs, output PyTrees with any number of axes, masks per leaf or parameter, training sets of 1 to 13 points with repeated and constant features, input and target uncertainties, ways of saving",
  "tests calibrate one model with array inputs; PyTrees, categorical leaves, masks, strata and uncertainties of inputs are never compared with the formula",
  ["conformal/conformalizedmodel.py"],
  [("parameter_sensitivity, input_sensitivity, distance_sensitivity", "conformal/conformalizedmodel.py"), ("uncertainty_heuristic", "conformal/conformalizedmodel.py"), ("serialize/deserialize", "conformal/conformalizedmodel.py")],
  ["uncertainties and sensitivities", "corrected predictions", "restored model"])
ORACLE["C19"] = "the documented formula in numpy with closed-form derivatives, metamorphic relations, and restored models"
NOTE["C19"] = STD

P("C15", "Parameters, state and precision are what was set, and are counted right",
  "For every module and (nested or graph) model, setting parameters, state or the precision and reading them back gives the values set, in the model's structure, and evaluation uses exactly these values. "
  "Setting the precision in any accepted form (type, name or 32/64) changes the precision of all floating-point leaves of parameters and state while real stays real, complex stays complex and integers stay integers; unknown precisions, and 64 bit where JAX has none, are rejected. "
  "Evaluating, freezing and unfreezing change none of them; freezing marks exactly the modules it is asked to, and a model is trainable if any of its modules is. The number of trainable floats is unknown before compilation and afterwards counts one per real and two per complex number (n squared per Hermitian n x n matrix).",
  ["inputs", "operation sequences"],
  "all module kinds and options, nested and graph models, histories of setting parameters, state, precision, freezing and evaluating",
  "tests set the parameters of single modules once; histories over containers and state of other kinds are not exercised",
  ["model.py", "modules/basemodule.py", "nonsequentialmodel.py"],
  [("get/set_params, get/set_state", "model.py"), ("set_precision/astype", "modules/basemodule.py"), ("get_num_trainable_floats", "modules")],
  ["parameters", "state", "outputs", "counts"])
ORACLE["C15"] = "a plain numpy copy of the values set, and a second object given the same values"
NOTE["C15"] = STD

P("C16", "Edited models behave like models newly built from the same modules",
  "After any history of appending, prepending, inserting, replacing (by index, slice, name or path), removing modules or adding with +, in a sequential model kept as list, tuple or dictionary, the model consists of exactly the expected module objects in the expected order and container, "
  "is not ready until compiled again, and then predictions, derivatives and training equal those of a newly built model of the same modules with the same values: nothing cached before the edit is used. This includes edits of models inside the model, replaced modules of graph models and changed module settings. "
  "Adding with + leaves the summands as they were, modules keep their parameters when compiled again for the same input, and impossible edits are refused without changing the modules.",
  ["operation sequences"],
  "all histories of edits, compilations, evaluations with and without batches, derivatives, setting parameters and training, over all containers",
  "tests do not edit a model after using it; stale cached callables only show in such histories",
  ["model.py", "sequentialmodel.py", "nonsequentialmodel.py"],
  [("__setitem__, insert_module, pop_module_by_*", "model.py"), ("reset", "model.py"), ("compile", "sequentialmodel.py")],
  ["modules", "predictions", "derivatives", "readiness"])
ORACLE["C16"] = "an ordinary Python list of modules composed and differentiated by hand, and newly built models"
NOTE["C16"] = STD + "Dictionary models are only edited such that the order of insertion and the sorted order of the names agree, since the documentation names both as the order of application."

P("C20", "Randomness is reproducible from the keys and never reused",
  "Compiling a module or model with the same seed (integer or key) gives the same parameters whatever the state of the global random generators; parameter arrays of different modules, leaves and matrices, and of equal modules in one model, are initialized with different numbers, scaled by the initial magnitude. "
  "A call with the same key (given, or the model's own) gives the same result and changes neither the model's key nor its state unless asked to; each module of a sequential, graph or nested model draws from its own key, samples and batches of a call do not. "
  "Every training step draws anew, training with the same seeds repeats exactly, and the model's key is advanced by training.",
  ["inputs", "operation sequences"],
  "all modules with random initial values, all nestings of sequential and graph models with modules that draw random numbers, seeds in every form, histories of calls, derivatives and training",
  "tests only check that a call runs; equal keys handed to two modules give plausible but correlated numbers",
  ["model.py", "sequentialmodel.py", "nonsequentialmodel.py", "training.py", "modules"],
  [("compile", "sequentialmodel.py"), ("nonseq_callable", "nonsequentialmodel.py"), ("model_rng", "training.py"), ("get_rng/set_rng", "model.py")],
  ["parameters", "numbers drawn", "random key"])
ORACLE["C20"] = "repetition with the same seed, and pairwise distinctness of all recorded draws and initial values"
NOTE["C20"] = STD
