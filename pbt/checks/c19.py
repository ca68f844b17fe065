"""C19: invalid use raises an ordinary Python exception, and the model and the process stay usable."""
import copy, io, contextlib, os, tempfile, warnings
from ..common import *
import numpy as np
import pandas as pd
from sklearn.exceptions import NotFittedError

ID = "C19"
RULE = ("one misuse per case, on a new or an already fitted model of one of the 13 tasks: a parameter value beyond its documented bounds or of a wrong type "
        "(given at construction or set later), a value at its bounds (which has to be accepted), data with wrong shapes, row counts, column counts, missing or "
        "infinite values, wrong or missing extra data, asking an unfitted model, and odd but possibly acceptable data (which may raise or not); afterwards the same "
        "model is given valid parameters and data and has to return what a new model returns; non-trivial: the misuse reached the package (raised, or was accepted where allowed)")
CASES = {"quick": 110000, "thorough": 400000}
CHUNK = 40

NAN, INF = {"f": "nan"}, {"f": "inf"}
BAD = {
    "max_depth": [-1, 21, 1000, 2.5, "3", None, NAN, [3]],
    "max_num_nodes": [-1, -7, 1048576, 1.5, "1", NAN, [1]],
    "min_leaf_node_size": [0, -1, 1.5, "1", None, NAN],
    "time_limit": [0, -1, -0.5, "10", None, NAN],
    "cost_complexity": [-0.01, 1.01, -1, 2, "0.1", None, NAN, INF],
    "feature_ordering": ["random", "", "Gini", 1, None],
    "upper_bound": [-1, -0.001, "1", None, NAN],
    "random_seed": [-2, -100, 1.5, "1", None],
    "n_thresholds": [0, -1, 1.5, "2", None],
    "n_categories": [1, 0, -1, 2.5, "2", None],
    "continuous_binarize_strategy": ["kmeans", "", 1, None],
    "lasso_penalty": [-1, -0.01, "0", None, NAN],
    "ridge_penalty": [-1, -0.01, "0", None, NAN],
    "discrimination_limit": [-0.01, 1.01, 5, "0.1", None, NAN],
    "teacher_method": ["dr", "", "X", 1, None],
    "optimization_task": ["", "nonsense", "Accuracy", 1, None],
}
GOOD = {
    "max_depth": [0, 1, 7, 20, {"np": 2}],
    "max_num_nodes": [0, 1, 1048575, None, {"np": 2}],
    "min_leaf_node_size": [1, 2, {"np": 2}, 100000],
    "time_limit": [1, 0.5, 1e9, 1e-9],
    "cost_complexity": [0, 1, 0.5, 1e-12],
    "feature_ordering": ["gini", "in-order"],
    "upper_bound": [0, 1, 1e-9, 2 ** 31 - 1, 0.25],
    "random_seed": [-1, 0, 1, 2 ** 31 - 1],
    "n_thresholds": [1, 1000],
    "n_categories": [2, 1000],
    "continuous_binarize_strategy": ["tree", "quantile", "uniform"],
    "lasso_penalty": [0, 1e-9, 1e12],
    "ridge_penalty": [0, 1e-9, 1e12],
    "discrimination_limit": [0, 1, 1e-9],
    "teacher_method": ["DR", "DM", "IPW"],
}
# may be refused or not
ODD = {
    "max_depth": [True], "max_num_nodes": [True], "min_leaf_node_size": [2 ** 31, 2 ** 63, True], "time_limit": [INF, 1e300, True], "upper_bound": [INF, 1e300, True],
    "random_seed": [2 ** 31, 2 ** 40, 2 ** 70], "n_thresholds": [2 ** 40], "n_categories": [2 ** 40], "verbose": [1, "yes", None, 2], "hyper_tune": ["no", None, 3],
    "lasso_penalty": [1e13, INF], "ridge_penalty": [1e13, INF], "all_trees": ["x", None], "use_upper_bound": ["x", None, 7], "use_branch_caching": [None, "a"],
    "use_lower_bound": [None, 1.5], "simple": [None, "x"], "regression_lower_bound": ["x", "", None, 1], "use_task_lower_bound": [None, "x"],
}
ASK = ["predict", "score", "get_question_length", "get_tree", "get_depth", "get_n_leaves", "print_tree", "export_dot", "predict_proba",
       "predict_survival_function", "predict_cumulative_hazard_function"]
LABELLED = ("accuracy", "cost-complex-accuracy", "f1-score", "group-fairness", "equality-of-opportunity", "cost-sensitive")
REAL = ("regression", "cost-complex-regression", "piecewise-linear-regression", "simple-linear-regression")

# mutation: (verdict at fit, verdict at later use) with bad / any / - (does not apply)
MUT = {
    "X-1d": ("bad", "bad"), "X-3d": ("bad", "bad"), "X-none": ("bad", "bad"), "X-0cols": ("bad", "bad"), "X-0rows": ("bad", "any"), "X-1row": ("any", "any"),
    "X-nan": ("bad", "bad"), "X-inf": ("bad", "any"), "X-str": ("any", "any"), "X-object": ("any", "any"), "X-more": ("-", "any"), "X-fewer": ("-", "bad"),
    "X-list": ("any", "any"), "X-int": ("any", "any"), "X-large": ("any", "any"), "X-number": ("bad", "bad"), "X-text": ("bad", "bad"),
    "X-frame": ("any", "any"), "X-frame-renamed": ("-", "bad"), "X-frame-text": ("any", "any"), "X-frame-twice": ("any", "any"),
    "y-short": ("bad", "bad"), "y-long": ("bad", "bad"), "y-none": ("bad", "bad"), "y-number": ("bad", "bad"), "y-text": ("any", "any"),
    "y-nan": ("bad", "bad"), "y-inf": ("bad", "bad"), "y-2d": ("bad", "bad"), "y-column": ("any", "any"), "y-neg": ("bad", "any"), "y-big": ("any", "any"),
    "y-huge": ("any", "any"), "y-float": ("any", "any"), "y-empty": ("bad", "bad"),
    "extra": ("bad", "bad"), "Z-short": ("bad", "bad"), "Z-long": ("bad", "bad"), "Z-cols": ("-", "bad"), "Z-none": ("bad", "any"), "Z-nan": ("any", "any"), "Z-text": ("bad", "bad"),
    "spec-none": ("bad", "-"), "spec-labels": ("bad", "-"), "spec-features": ("bad", "-"), "spec-text": ("bad", "-"),
    "spec-file-missing": ("bad", "-"), "spec-file-word": ("bad", "-"), "spec-file-short": ("bad", "-"), "spec-file-empty": ("bad", "-"),
    "sens-out": ("bad", "-"), "sens-neg": ("any", "-"), "sens-name": ("bad", "-"), "sens-none": ("bad", "-"), "sens-float": ("bad", "-"),
    "cols-fewer": ("any", "bad"), "gap": ("bad", "-"), "objects": ("any", "any"), "objects-short": ("bad", "any"), "objects-mixed": ("bad", "bad"),
    "cols-one": ("bad", "bad"), "cols-other": ("any", "any"), "treatment": ("any", "any"), "times-neg": ("any", "any"), "cat-out": ("bad", "-"), "cat-name": ("any", "-"),
}


def applies(t, m):
    n = t.name
    lin = n.endswith("linear-regression")
    if m.startswith("Z-"): return lin
    if m.startswith("spec-"): return n == "cost-sensitive"
    if m.startswith("sens-"): return n in ("group-fairness", "equality-of-opportunity")
    if m == "gap": return n == "prescriptive-policy"
    if m in ("cols-one", "cols-other", "cols-fewer") or m.startswith("objects"): return n in ("instance-cost-sensitive", "prescriptive-policy")
    if m == "treatment": return n == "prescriptive-policy"
    if m == "times-neg": return n == "survival-analysis"
    if m in ("y-neg", "y-big", "y-huge", "y-float"): return n in LABELLED
    if m in ("y-nan", "y-2d", "y-column", "y-text"): return n in LABELLED + REAL
    if m == "y-inf": return n in REAL
    if m == "extra": return n in ("accuracy", "cost-complex-accuracy", "f1-score", "regression", "cost-complex-regression")
    if m.startswith("cat-"): return n in ("accuracy", "regression", "cost-complex-accuracy")
    return True


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    n, F = G.ri(rng, 12, 30), G.ri(rng, 2, 4)
    if t.name in ("group-fairness", "equality-of-opportunity"): n = G.ri(rng, 8, 16)
    c = t.gen_rows(rng, n, F)
    c["task"] = t.name
    c["params"] = {"max_depth": G.ri(rng, 1, 2), **t.gen_params(rng, c)}
    c["first"] = bool(G.chance(rng, 0.5))
    kind = G.pick(rng, ["param", "unfitted", "fit", "use"], p=[.35, .1, .3, .25])
    if kind == "param":
        table, verdict = G.pick(rng, [(BAD, "bad"), (GOOD, "ok"), (ODD, "any")], p=[.55, .25, .2])
        # a node limit may not be combined with a cost per node
        names = [k for k in sorted(table) if k in t.all_args and (verdict == "bad" or t.nodes or k != "max_num_nodes")]
        k = G.pick(rng, names)
        act = ["param", k, G.pick(rng, table[k]), verdict, G.pick(rng, ["init", "set"])]
        if verdict == "ok" and G.chance(rng, 0.3):             # a combination of values at their bounds
            act.append({q: G.pick(rng, [v for v in GOOD[q] if v != 20]) for q in sorted(GOOD) if q in t.all_args and q != k and (t.nodes or q != "max_num_nodes") and G.chance(rng, 0.3)})
        if k == "max_depth" and act[2] == 20:                 # the search space of full trees is too large
            if t.nodes: act[5:] = [{"max_num_nodes": G.ri(rng, 0, 3)}]
            else: act[2] = 7
    elif kind == "unfitted": act = ["unfitted", G.pick(rng, [a for a in ASK if hasattr(t.cls, a)]), G.pick(rng, ["new", "infeasible", "failed"])]
    else:
        j = 0 if kind == "fit" else 1
        m = G.pick(rng, [m for m in sorted(MUT) if MUT[m][j] != "-" and applies(t, m)])
        act = [kind, m, MUT[m][j]]
        if kind == "use": act.append(G.pick(rng, [a for a in ("predict", "score", "get_question_length", "predict_proba") if hasattr(t.cls, a)]))
    c["act"] = act
    return c


def value_of(v):
    if isinstance(v, dict): return float(v["f"]) if "f" in v else np.int64(v["np"])
    return v


def mutate(t, args, m, est):
    """Arguments [X, y, ...] with one fault."""
    X, y, rest = args[0], args[1], list(args[2:])
    n, F = X.shape
    if m == "X-1d": X = X[:, 0]
    elif m == "X-3d": X = X[:, :, None].repeat(2, axis=2)
    elif m == "X-none": X = None
    elif m == "X-0cols": X = X[:, :0]
    elif m in ("X-0rows", "X-1row"):
        k = 0 if m == "X-0rows" else 1
        X, y = X[:k], y[:k]
        rest = [r[:k] if isinstance(r, (np.ndarray, pd.DataFrame)) else r for r in rest]
    elif m in ("X-nan", "X-inf"):
        X = X.astype(float)
        X[n // 2, F - 1] = np.nan if m == "X-nan" else np.inf
    elif m == "X-str": X = np.where(X > 0, "a", "b")
    elif m == "X-object":
        X = X.astype(object)
        X[0, 0] = {}
    elif m == "X-more": X = np.concatenate([X, X[:, :1]], axis=1)
    elif m == "X-fewer": X = X[:, :-1]
    elif m == "X-list": X = X.tolist()
    elif m == "X-int": X = X * 7 - 3 + np.arange(n)[:, None]
    elif m == "X-large": X = X.astype(float) * 1e300
    elif m == "X-number": X = 1
    elif m == "X-text": X = "data"
    elif m == "X-frame": X = pd.DataFrame(X, columns=["c%d" % j for j in range(F)])
    elif m == "X-frame-renamed": X = pd.DataFrame(X, columns=["d%d" % j for j in range(F)])
    elif m == "X-frame-text": X = pd.DataFrame(np.where(X > 0, "a", "b"), columns=["c%d" % j for j in range(F)])
    elif m == "X-frame-twice": X = pd.DataFrame(X, columns=["c"] * F)
    elif m == "y-short": y = y[:-1]
    elif m == "y-long": y = np.concatenate([y, y[:1]])
    elif m == "y-empty": y = y[:0]
    elif m == "y-none": y = None
    elif m == "y-number": y = 1
    elif m == "y-text": y = np.array(["a", "b"] * n)[:n]
    elif m in ("y-nan", "y-inf"):
        y = y.astype(float)
        y[n // 2] = np.nan if m == "y-nan" else np.inf
    elif m == "y-2d": y = np.stack([y, y], axis=1)
    elif m == "y-column": y = y[:, None]
    elif m == "y-neg": y = np.where(np.arange(n) == n // 2, -1, y)
    elif m == "y-big": y = np.where(np.arange(n) == n // 2, 300, y)
    elif m == "y-huge": y = np.where(np.arange(n) == n // 2, 2 ** 40, y.astype(np.int64))
    elif m == "y-float": y = y + 0.5
    elif m == "extra": rest = [np.ones(n)]
    elif m == "Z-short": rest[0] = rest[0][:-1]
    elif m == "Z-long": rest[0] = np.concatenate([rest[0], rest[0][:1]])
    elif m == "Z-cols": rest[0] = np.concatenate([rest[0], rest[0][:, :1]], axis=1)
    elif m == "Z-none": rest = []
    elif m == "Z-nan":
        rest[0] = rest[0].copy()
        rest[0][0, 0] = np.nan
    elif m == "Z-text": rest[0] = "columns"
    elif m == "spec-none": rest = [None]
    elif m == "spec-text": rest = ["costs"]
    elif m.startswith("spec-file-"):
        from pystreed.data import CostSpecifier
        k = max(2, int(max(y)) + 1)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "costs.txt")
            T.write_costs_bad(path, k, F, m[10:])
            rest = [CostSpecifier(path, k)]
    elif m == "spec-labels":
        if int(max(y)) < 1: raise Skip()
        from pystreed.data import CostSpecifier, FeatureCostSpecifier
        k = int(max(y))
        rest = [CostSpecifier([[float(a != b) for b in range(k)] for a in range(k)], [FeatureCostSpecifier(1.0, 1.0, "g", 0, F - 1)])]
    elif m == "spec-features":
        from pystreed.data import CostSpecifier, FeatureCostSpecifier
        k = int(max(y)) + 1
        rest = [CostSpecifier([[float(a != b) for b in range(max(2, k))] for a in range(max(2, k))], [FeatureCostSpecifier(1.0, 1.0, "g", 0, F - 2)])]
    elif m == "sens-out": est.sensitive_feature = F
    elif m == "sens-neg": est.sensitive_feature = -F - 1
    elif m == "sens-name": est.sensitive_feature = "absent"
    elif m == "sens-none": est.sensitive_feature = None
    elif m == "sens-float": est.sensitive_feature = 0.5
    elif m == "cols-one": y = y[:, :1]
    elif m == "cols-other": y = np.concatenate([y, y[:, :1]], axis=1)
    elif m == "cols-fewer": y = y[:, :-1]
    elif m == "gap":
        y = y.copy()
        y[y[:, 0] == y[:, 0].max(), 0] += 1                # as many treatments as columns, but one is out of range
    elif m.startswith("objects"):
        from pystreed.data import CostVector, PPGData
        if t.name == "prescriptive-policy":
            k = (y.shape[1] - 4) // 2 if y.shape[1] > 5 and (y.shape[1] - 4) % 2 == 0 and est_labels(y) == (y.shape[1] - 4) // 2 else y.shape[1] - 3
            y = [PPGData(int(r[0]), r[1], r[2], list(r[3:3 + k])) for r in y]
            if m == "objects-short": y[n // 2] = PPGData(0, 0.5, 0.5, [1.0])
        else:
            y = [CostVector(list(r)) for r in y]
            if m == "objects-short": y[n // 2] = CostVector([1.0])
        if m == "objects-mixed": y[n // 2] = 3
    elif m == "treatment":
        y = y.copy()
        y[0, 0] = 40
    elif m == "times-neg":
        y = y.copy()
        y[y.dtype.names[1]][0] = -1.0
    elif m == "cat-out": rest = [None, [F + 3]]
    elif m == "cat-name": rest = [None, ["absent"]]
    else: raise AssertionError(m)
    return [X, y] + rest


def est_labels(y):
    return len(np.unique(y[:, 0]))


def quiet(f):
    """(value, exception) of a call whose warnings and output do not matter; only ordinary exceptions are caught."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try: return f(), None
        except Exception as e: return None, e


def asking(t, est, what, args):
    if what in ("get_tree", "get_depth", "get_n_leaves"): return getattr(est, what)()
    if what in ("print_tree", "export_dot"):
        with tempfile.TemporaryDirectory() as d: return getattr(est, what)(os.path.join(d, "tree"))
    f = getattr(est, what)
    lin = t.name.endswith("linear-regression")
    if what in ("score", "get_question_length"): return f(*args[:3]) if lin else f(*args[:2])
    return f(args[0], *args[2:3]) if lin and what == "predict" else f(args[0])


def summary(t, est):
    r = getattr(est, "fit_result", None)
    return None if r is None else (repr(O.tree_of(est.tree_)) if not t.name.endswith("linear-regression") else repr(t.tree(est)), r.score())


def plain(v):
    return repr(v.tolist() if hasattr(v, "tolist") else v)


def check(case):
    t = T.ALL[case["task"]]
    need_rows(case, 4)
    good = t.fit_args(case)
    use = t.score_args(case)
    if t.name.endswith("linear-regression"): use = good
    act = case["act"]
    lb = [t.name, act[0]]
    sens = case.get("sens")

    def make(extra=None):
        est = t.make({**case["params"], **(extra or {})})
        if sens is not None: est.sensitive_feature = sens
        return est

    def fitgood(est):
        _, e = quiet(lambda: est.fit(*copy.copy(good)))
        if e is not None: raise Violation("recovery", "a valid fit after %r raised %r" % (act, e))
        return summary(t, est)

    ref = make()
    _, e = quiet(lambda: ref.fit(*good))
    if e is not None: raise Violation("valid-refused", "a valid fit raised %r" % (e,))
    expected = summary(t, ref)
    est = make()
    if case["first"] and act[0] != "unfitted": fitgood(est)

    if act[0] == "param":
        _, name, v, verdict, how = act[:5]
        v = value_of(v)
        extra = {k: value_of(x) for k, x in (act[5] if len(act) > 5 else {}).items()}
        before = est.get_params()
        holder = [est]

        def go():
            if how == "init": holder[0] = make({name: v, **extra})
            else: est.set_params(**{name: v, **extra})
            holder[0].fit(*good)
        _, e = quiet(go)
        lb += ["%s:%s" % (verdict, name), how]
        if verdict == "bad" and e is None: raise Violation("accepted", "%s=%r was accepted" % (name, v))
        if verdict == "ok" and e is not None: raise Violation("refused", "%s=%r %r raised %r" % (name, v, extra, e))
        if e is None and getattr(holder[0], "fit_result", None) is not None:
            _, e2 = quiet(lambda: asking(t, holder[0], "predict", use))
            if e2 is not None: raise Violation("unusable", "after %s=%r predict raised %r" % (name, v, e2))
        if how == "set": est.set_params(**{k: before[k] for k in [name, *extra]})
    elif act[0] == "unfitted":
        lb.append(act[2])
        if act[2] == "infeasible":
            if case["first"]: fitgood(est)
            est.set_params(min_leaf_node_size=len(case["rows"]["X"]) + 1)
            _, e = quiet(lambda: est.fit(*good))
            if e is not None: raise Violation("infeasible", "a fit without a feasible tree raised %r" % (e,))
        elif act[2] == "failed":
            _, e = quiet(lambda: est.fit(good[0], good[1][:-1], *good[2:]))
            if e is None: raise Violation("accepted", "fit accepted a target with too few rows")
        _, e = quiet(lambda: asking(t, est, act[1], use))
        if not isinstance(e, NotFittedError): raise Violation("not-fitted", "%s on an unfitted model: %r instead of NotFittedError" % (act[1], e))
        if act[2] == "infeasible": est.set_params(min_leaf_node_size=case["params"].get("min_leaf_node_size", 1))
        lb.append(act[1])
    elif act[0] == "fit":
        m, verdict = act[1:3]
        if m.startswith("spec-file-"): bad, e = quiet(lambda: mutate(t, good, m, est))      # refused before the fit
        else: bad, e = mutate(t, good, m, est), None
        if e is None: _, e = quiet(lambda: est.fit(*bad))
        lb.append("%s:%s" % (verdict, m))
        if verdict == "bad" and e is None: raise Violation("accepted", "fit accepted %s" % m)
        if e is None and getattr(est, "fit_result", None) is not None: quiet(lambda: asking(t, est, "predict", bad))
        quiet(lambda: asking(t, est, "predict", use))              # may raise, may not end the process
        if sens is not None: est.sensitive_feature = sens
    else:
        m, verdict, what = act[1:4]
        frame = m == "X-frame-renamed"
        if frame:
            _, e = quiet(lambda: est.fit(pd.DataFrame(good[0], columns=["c%d" % j for j in range(good[0].shape[1])]), *good[1:]))
            if e is not None: raise Violation("valid-refused", "a valid fit with a data frame raised %r" % (e,))
        else: fitgood(est)
        if getattr(est, "fit_result", None) is None: return Result(False, lb)
        mine = [pd.DataFrame(use[0], columns=["c%d" % j for j in range(use[0].shape[1])])] + list(use[1:]) if frame else use
        before, e = quiet(lambda: asking(t, est, "predict", mine))
        if e is not None: raise Violation("valid-refused", "a valid prediction raised %r" % (e,))
        if what in ("predict", "predict_proba") and m.startswith(("y-", "cols-", "treatment", "times-", "objects")): what = "score"
        if m == "extra": what = "predict"
        bad = mutate(t, use, m, est)
        out, e = quiet(lambda: (est.predict(bad[0], bad[2]) if m == "extra" else asking(t, est, what, bad)))
        if m == "X-more" and e is None and plain(out) != plain(quiet(lambda: asking(t, est, what, use))[0]):
            raise Violation("extra-column", "%s with an extra column gives other results than without" % what)
        lb += ["%s:%s" % (verdict, m), what]
        if verdict == "bad" and e is None: raise Violation("accepted", "%s accepted %s" % (what, m))
        after, e = quiet(lambda: asking(t, est, "predict", mine))
        if e is not None or plain(after) != plain(before):
            raise Violation("recovery", "predictions after %s with %s: %r instead of %r" % (what, m, e or after, before))
    got = fitgood(est)
    if repr(got) != repr(expected): raise Violation("recovery", "a valid fit after %r gave %r instead of %r" % (act, got, expected))
    return Result(True, lb, evals=3)
