"""Writes /verif/properties.jsonl (kept as a script so wording stays in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Accuracy and cost-complex accuracy trees are truly optimal",
 "For every binary data set with any number of classes, every depth limit, node limit, minimum leaf size and cost per branching node, a completed fit is feasible exactly when some tree within the limits exists. The returned tree then misclassifies as few training instances as any tree within the limits; for the cost-complex objective, its misclassifications plus number of branching nodes times cost times number of instances is as small as for any tree within the limits. Such a result is flagged optimal.",
 ["inputs", "configurations"],
 "all binary feature matrices, label vectors, depth/node/leaf-size limits, branching costs and search options",
 "The one existing test compares a few fixed data files with stored numbers; a wrong prune or cache entry shows only for particular row patterns and limits, and only against exhaustive search.",
 ["src/solver/solver.cpp", "src/solver/terminal_solver.cpp", "src/solver/similarity_lowerbound.cpp", "src/tasks/accuracy/accuracy.cpp", "src/tasks/accuracy/cost_complex_accuracy.cpp"],
 [("recursive search with bounds", "src/solver/solver.cpp SolveSubTree/SolveSubTreeGeneralCase"), ("depth-two solver", "src/solver/terminal_solver.cpp"), ("equivalent-points bound", "src/tasks/accuracy/cost_complex_accuracy.cpp ComputeLowerBound")],
 ["tree returned by fit", "fit result: feasible, optimal, score"],
 [("subtree cache", "optimal solutions and lower bounds of solved subproblems", "src/solver/dataset_cache.cpp, src/solver/branch_cache.cpp")])
prop("C02", "F1-score trees maximise the F1-score",
 "For every binary data set with two classes and every limit on depth, nodes and leaf size, the tree returned by a completed fit has the highest training F1-score of the positive class that any tree within the limits can reach. The reported score equals that F1-score.",
 ["inputs", "configurations"], "all binary feature matrices with 0/1 labels (both classes present), all limits and search options",
 "The objective is a Pareto search over false positives and false negatives; a solution dropped from a front shows only when its combination with another branch would have won.",
 ["src/tasks/f1score.cpp", "include/tasks/f1score.h", "include/model/container.h", "src/solver/solver.cpp", "src/solver/terminal_solver.cpp"],
 [("Pareto front merging", "src/solver/solver.cpp, include/model/container.h"), ("root dominance by score", "include/tasks/f1score.h DominatesD0")],
 ["tree returned by fit", "score of the fit result"])
prop("C03", "Fair trees meet the discrimination limit and are the most accurate such trees",
 "For every binary data set with a binary sensitive feature and every discrimination limit, a tree returned for demographic parity (or equality of opportunity) has a difference in positive rates (or true positive rates) between the two groups on the training data within the limit. It never branches on the sensitive feature, and no tree within the size limits that meets the limit is more accurate on the training data. A tree is returned whenever one exists.",
 ["inputs", "configurations"], "all 0/1 feature matrices and labels with both groups (and, for equality of opportunity, positives in both groups) present, any column as sensitive feature, all limits",
 "Constraint handling interacts with pruning, dominance with tolerances and root relaxation; only exhaustive enumeration of reachable (errors, rates) triples shows a lost or illegal tree.",
 ["src/tasks/group_fairness.cpp", "src/tasks/eq_opp.cpp", "include/tasks/group_fairness.h", "include/tasks/eq_opp.h", "pystreed/group_fair.py", "src/solver/solver.cpp"],
 [("constraint check", "include/tasks/group_fairness.h SatisfiesConstraint, include/tasks/eq_opp.h"), ("sensitive feature moved first", "pystreed/group_fair.py")],
 ["tree returned by fit", "predictions", "score"])
prop("C04", "Cost-sensitive trees minimise misclassification plus feature-test costs",
 "For every cost matrix and every assignment of test costs, discounts, groups and shared binarised features, the returned tree has the smallest total training cost of all trees within the limits. The cost of a tree is the misclassification cost of every instance plus, for each test an instance passes, the full cost, the discounted cost when the group was tested before on its path, or nothing when the same original feature was tested before. The reported score is this total on the scored data, averaged and normalised consistently.",
 ["inputs", "configurations"], "all binary data sets, non-negative cost matrices with zero diagonal, feature cost specifications and limits",
 "The cost of a branching depends on the path, which invalidates naive caching and feature deduplication; violations need particular cost structures.",
 ["src/tasks/cost_sensitive.cpp", "include/tasks/cost_sensitive.h", "src/solver/solver.cpp", "src/solver/terminal_solver.cpp", "pystreed/cost_sensitive_classification.py"],
 [("path-dependent branching cost", "src/tasks/cost_sensitive.cpp GetBranchingCosts"), ("cost specifier tables", "src/tasks/cost_sensitive.cpp CostSpecifier::Initialize")],
 ["tree returned by fit", "score"])
prop("C05", "Instance-cost and prescriptive-policy trees optimise their per-instance costs",
 "For every table of costs per instance and label, the returned tree has the smallest summed training cost of all trees within the limits. For every policy data set, the returned policy tree maximises the summed teacher value (predicted outcome, inverse propensity weighted outcome, or their doubly robust combination) over all trees within the limits.",
 ["inputs", "configurations"], "all binary feature matrices with per-instance cost vectors or teacher data, all three teacher methods, all limits",
 "Costs vary per instance, so bounds derived from labels or from differences between data sets can be wrong only for particular cost tables.",
 ["src/tasks/instance_cost_sensitive.cpp", "src/tasks/prescriptive_policy.cpp", "pystreed/instance_cost_sensitive_classification.py", "pystreed/prescriptive_policy_generation.py"],
 [("per-instance leaf costs", "src/tasks/instance_cost_sensitive.cpp"), ("teacher scores", "src/tasks/prescriptive_policy.cpp ProcessData/InformTrainData")],
 ["tree returned by fit", "score"])
prop("C06", "Regression trees minimise squared error, with or without branching costs",
 "For every binary feature matrix and real target vector, the returned tree's training sum of squared errors is the smallest of all trees within the limits; with branching costs, the sum of squared errors plus cost times number of branching nodes times the total sum of squares is the smallest. Every leaf predicts the mean target of its training instances. The choice of lower bound does not change the optimal value.",
 ["inputs", "configurations"], "all 0/1 matrices (with many repeated rows), real targets of different scales, all limits, both bounds",
 "Instances with equal features are merged and weighted, and two clustering bounds prune the search; errors show only against exhaustive search on particular data.",
 ["src/tasks/regression/regression.cpp", "src/tasks/regression/cost_complex_regression.cpp", "include/tasks/regression/ckmeans", "src/solver/solver.cpp", "pystreed/regression.py"],
 [("equivalent-points and k-means bounds", "src/tasks/regression/cost_complex_regression.cpp ComputeLowerBound"), ("merging of equal instances", "PreprocessTrainData")],
 ["tree returned by fit", "score", "predictions"])
prop("C07", "Linear-leaf regression trees have correct leaf models and are optimal",
 "With simple linear leaves, every leaf holds the best penalised one-feature model for its training instances and the tree minimises error plus penalties plus branching costs over all trees within the limits. With elastic-net leaves, every leaf model is close to the elastic-net optimum of its instances in the normalised features, and no tree within the limits is better by more than the solver's tolerance. Predictions equal the leaf model applied to the continuous features in their original scale.",
 ["inputs", "configurations"], "all mixes of binary and continuous columns, penalties, leaf-size limits and branching costs",
 "Normalisation, coordinate descent and instance merging have to compose exactly; a slip yields plausible but slightly wrong models that fixed examples do not expose.",
 ["src/tasks/regression/piecewise_linear_regression.cpp", "src/tasks/regression/piecewise_simple_linear_regression.cpp", "pystreed/regression.py"],
 [("coordinate descent", "src/tasks/regression/piecewise_linear_regression.cpp SolveGLMNet"), ("closed-form one-feature model", "src/tasks/regression/piecewise_simple_linear_regression.cpp")],
 ["leaf models of the tree", "predictions", "score"])
prop("C08", "Survival trees minimise the proportional-hazard loss; curves follow from it",
 "For every right-censored data set, the returned tree has the smallest summed proportional-hazard loss over all trees within the limits, and each leaf's risk factor is the number of observed events (one half if none) divided by the summed baseline cumulative hazard of its instances. The predicted survival function of an instance is exp(-risk times baseline cumulative hazard), starts at most at one, never increases, and its cumulative hazard is minus its logarithm.",
 ["inputs", "configurations"], "all binary feature matrices, event indicators and positive event times including ties, all limits",
 "The baseline hazard is estimated from the data and applied to other data; ties, censoring patterns and leaves without events need generated data and an independent estimator.",
 ["src/tasks/survival_analysis.cpp", "include/tasks/survival_analysis.h", "pystreed/survival_analysis.py"],
 [("baseline hazard estimator", "src/tasks/survival_analysis.cpp ComputeHazardFunction"), ("survival functions", "pystreed/survival_analysis.py")],
 ["tree returned by fit", "predict", "predict_survival_function", "predict_cumulative_hazard_function"])
prop("C09", "Every returned tree respects the depth, node and leaf-size limits",
 "For every task and every combination of limits and search options, the returned tree is a full binary tree whose depth and number of branching nodes do not exceed the limits and whose every leaf receives at least the minimum number of training instances. The reported depth, node count and leaf count are those of the returned tree. If no such tree exists, the fit reports that none was found.",
 ["inputs", "configurations"], "all tasks, data sets, limits (including zero depth, zero nodes, leaf size above the data size), search options",
 "Limits are enforced in several places (general search, depth-two solver, caches, reconstruction) whose agreement depends on the shape of the budget.",
 ["src/solver/solver.cpp", "src/solver/terminal_solver.cpp", "include/solver/tree.h", "pystreed/base.py"],
 [("budget splitting", "src/solver/solver.cpp SolveSubTree*"), ("tree reconstruction", "src/solver/solver.cpp ConstructOptimalTree")],
 ["tree returned by fit", "tree_depth", "tree_nodes", "get_n_leaves", "feasibility flag"])
prop("C10", "Predictions and scores on any data follow from the returned tree",
 "For every fitted model and every data set, each predicted value is the one in the leaf that the instance reaches in the returned tree, independent of the other rows and their order. The score and the average question length on that data equal those computed from its predictions and paths, and the training score equals the score on the training data.",
 ["inputs", "histories"], "all tasks; test sets of any size, order and label content, called in any order",
 "Prediction uses internal feature flips, reordering and reused split buffers; discrepancies depend on the particular test rows and on which call came before.",
 ["src/bindings.cpp", "include/solver/tree.h", "src/solver/data_splitter.cpp", "include/solver/result.h", "pystreed/base.py"],
 [("classification by tree with flipped features", "include/solver/tree.h"), ("test split", "src/solver/data_splitter.cpp")],
 ["predict", "score", "get_question_length", "fit result score"])
prop("C11", "Search options change run time, never the optimal value",
 "For every data set and limits, switching caching strategy, depth-two solver, similarity bound, upper and lower bounds, task bound, feature ordering, or searching sizes in increasing order yields a tree with the same objective value and the same feasibility. Giving an initial upper bound above the optimum does not change the optimal value, and a returned tree is never worse than the given upper bound (unless upper bounding is switched off, when the bound may be ignored).",
 ["configurations", "inputs"], "all subsets of search options on generated data sets too large for exhaustive search as well as small ones, all tasks",
 "The number of option combinations times data sets is far beyond example tests, and interactions between bounds and caches are where such solvers break.",
 ["src/solver/solver.cpp", "src/solver/cache.cpp", "src/solver/dataset_cache.cpp", "src/solver/branch_cache.cpp", "src/solver/similarity_lowerbound.cpp", "src/solver/feature_selector.cpp"],
 [("caches", "src/solver/dataset_cache.cpp, branch_cache.cpp"), ("similarity lower bound", "src/solver/similarity_lowerbound.cpp"), ("global upper bound", "src/solver/solver.cpp Solve")],
 ["score of fit results", "feasibility"])
prop("C12", "Results are invariant under equivalent data and monotone in the budget",
 "Permuting rows or columns, inverting, duplicating or adding constant binary columns, renumbering classes, repeating the whole data set, or shifting and rescaling regression targets leaves the optimal value unchanged (scaled where the objective scales). More depth or more nodes never gives a worse objective, a larger minimum leaf size never a better one, and removing a column never a better one.",
 ["inputs", "configurations"], "all tasks, with data sets larger than exhaustive search can handle, and random equivalent transformations",
 "It relates two runs on different inputs, which single expected-value tests cannot express, and reaches sizes where no oracle exists.",
 ["src/solver/solver.cpp", "src/model/data.cpp", "src/model/feature_vector.cpp", "src/solver/terminal_solver.cpp"],
 [("feature preprocessing and flipping", "src/solver/solver.cpp PreprocessData"), ("depth-two frequency counting", "src/solver/cost_calculator.cpp, src/solver/cost_storage.cpp")],
 ["score of fit results"])
prop("C13", "Results depend only on the last data and parameters, never on call history",
 "For every sequence of construct, set-parameter, fit, predict and score calls on one or several models in a process, each result equals the result of the same call on a fresh model given the same data and parameters. No call changes the arrays, data frames or cost objects passed in, and repeating a call with the same seed gives the same result.",
 ["histories"], "all interleavings of fits, refits with other data, tasks or parameters, predictions and scores on several live models",
 "State leaks (caches, stored data, random generators, shared static objects) appear only for particular call orders.",
 ["src/bindings.cpp", "src/solver/solver.cpp", "pystreed/base.py", "pystreed/group_fair.py"],
 [("solver reuse", "pystreed/base.py fit"), ("data initialisation", "src/solver/solver.cpp InitializeSolver/InitializeTest")],
 ["predict", "score", "fit result", "inputs after the call"])
prop("C14", "A time limit gives a valid tree or an honest failure, never false optimality",
 "For every data set and every time limit, a fit that runs out of time either reports that no tree was found or returns a valid tree within the size limits whose reported score is correct. It claims optimality only if the tree has the optimal value. Running out of time does not spoil later fits.",
 ["crash_points", "configurations"], "all tasks, with the stop falling at any point of the search",
 "The moment the limit strikes varies; stale partial results or bounds cached at that moment surface only for some stopping points.",
 ["src/solver/solver.cpp", "include/utils/stopwatch.h", "pystreed/base.py"],
 [("time check in search", "src/solver/solver.cpp SolveSubTreeGeneralCase"), ("optimality flag", "src/solver/solver.cpp Solve")],
 ["is_optimal", "is_feasible", "tree and score after a limited fit"])
prop("C15", "Hyper-tuned fits return an optimal tree for the tuned setting on all data",
 "A tuned fit returns a tree within the user's limits that is optimal on the full training data for some candidate setting of the tuned parameters, and its score and predictions are consistent with that tree and the original data. Data without noise that a tree within the limits fits perfectly is still fitted perfectly, and data that cannot be tuned keeps the given parameters. Tuning with the same data and seed gives the same tree.",
 ["inputs", "configurations"], "all tasks that can be tuned, with generated data, limits and seeds",
 "Tuning shares instances, caches and parameters between folds and the final fit; corruption shows only as a slightly wrong final tree.",
 ["src/solver/solver.cpp", "include/solver/tuning.h", "src/tasks/optimization_task.cpp", "src/tasks/regression/cost_complex_regression.cpp"],
 [("hyper-tuning loop", "src/solver/solver.cpp HyperSolve"), ("candidate configurations", "GetTuneRunConfiguration of each task")],
 ["tree returned by fit", "tuned solver parameters", "score"])
prop("C16", "Automatic binarisation turns columns into faithful binary tests",
 "For every table of numeric, categorical and binary columns and every strategy, each generated binary column equals its stated test (value at most the threshold, or value equal to the category) on training data and on any later data, with no more thresholds or categories per column than configured. Categorical columns keep the most frequent categories and group the others, numeric columns with few enough distinct values keep every distinction (with the tree strategy, those that separate the labels), and 0/1 columns not declared categorical are kept as they are. Training a model on the table gives the same result as training on the binarised columns.",
 ["inputs", "configurations"], "all mixes of column types, values (ties, negatives, constants, unseen categories), strategies and counts, arrays and data frames",
 "Column typing and threshold choice depend on the value distribution; unusual values and unseen data need generation.",
 ["pystreed/binarizer.py", "pystreed/base.py"],
 [("threshold and category encoders", "pystreed/binarizer.py")],
 ["binarised matrix and column names", "predict on raw data"])
prop("C17", "The command line program reads files faithfully and agrees with the library",
 "For every data set written in the documented text format, the command line program solves the same problem as the Python package: same optimal score, and a printed tree within the limits with the printed depth and node count. Limits on the number of features and instances, a train-test split and a separate test file act as documented, blank lines are ignored, and invalid parameters or malformed files end with an error message and a failure exit status.",
 ["inputs", "configurations"], "all tasks that read files, parameter combinations, data sets with extra columns, blank or irregular lines",
 "Parsing and parameter plumbing are separate code paths from the bindings; only generated files compared with an independent reader and the package cover them.",
 ["src/main.cpp", "src/utils/file_reader.cpp", "src/utils/parameter_handler.cpp", "src/solver/define_parameters.cpp"],
 [("file parsing", "src/utils/file_reader.cpp"), ("parameter parsing and checks", "src/utils/parameter_handler.cpp")],
 ["stdout and exit status of the program"])
prop("C18", "No input, option or call order makes the library corrupt memory",
 "For every sequence of valid calls, the native code performs no out-of-bounds access, no use of freed or uninitialised storage and no undefined arithmetic. This holds for fitting, predicting and scoring all tasks with all options, and for repeated use of the same model.",
 ["inputs", "histories", "configurations"], "all tasks, options, data shapes (single column, duplicate rows, one class, tiny and larger data) and call orders",
 "Wrong accesses usually leave results unchanged in ordinary runs; only instrumented runs over many generated histories reveal them.",
 ["src/bindings.cpp", "src/solver/*.cpp", "src/model/*.cpp", "src/tasks/*.cpp"],
 [("test data lifetime", "src/bindings.cpp _predict/_test_performance"), ("index arithmetic in pair storage", "src/solver/cost_storage.cpp")],
 ["sanitizer reports"])
prop("C19", "Invalid use raises a Python exception and never ends the process",
 "For every invalid parameter value or combination, mismatched or malformed data, or use before fitting, the package raises an ordinary Python exception (unfitted use raises the standard not-fitted error) and the interpreter keeps running. The model and process stay usable afterwards, and valid parameter combinations are accepted.",
 ["inputs", "configurations", "histories"], "all parameter values and combinations at and beyond their bounds, wrong shapes and types, calls in any order",
 "The native code ends the process on some errors; which combinations reach it needs systematic generation in isolated processes.",
 ["pystreed/base.py", "src/utils/parameter_handler.cpp", "src/bindings.cpp"],
 [("parameter validation", "pystreed/base.py _validate_params, src/utils/parameter_handler.cpp CheckParameters")],
 ["exception type", "process exit status"])
prop("C20", "Printed and exported trees describe exactly the model that predicts",
 "For every fitted model, following the printed text or the exported graph for an instance leads to the value that the model predicts for that instance. Feature and label names given by the user, thresholds and branch directions appear at the right nodes.",
 ["inputs", "configurations"], "all tasks, arrays and data frames, binarised columns, user-given names",
 "Agreement has to hold for every instance and tree shape; a swapped branch or wrong name is invisible to tests that only check that export runs.",
 ["pystreed/base.py", "pystreed/classification.py", "pystreed/regression.py", "pystreed/survival_analysis.py", "pystreed/utils.py"],
 [("recursive printing and export", "pystreed/base.py _recursive_print_tree/_recursive_export_dot")],
 ["print_tree output", "export_dot output", "predict"])
prop("C21", "Class probabilities and estimator parameters behave as in scikit-learn",
 "For every fitted classifier, the class probabilities of an instance are the class frequencies of the training instances in the leaf it reaches, and each row sums to one. Cloning an estimator or getting and setting its parameters reproduces an estimator with the same parameters and the same results, and fit returns the estimator itself.",
 ["inputs", "configurations"], "all classification tasks, class counts, data sets and estimator parameters",
 "It quantifies over all data and parameters; errors depend on label sets, leaf contents and parameter order.",
 ["pystreed/classification.py", "pystreed/base.py", "pystreed/*.py"],
 [("leaf frequencies", "pystreed/classification.py predict_proba")],
 ["predict_proba", "get_params/set_params/clone"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
