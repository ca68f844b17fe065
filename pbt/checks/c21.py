"""C21: class probabilities, and parameters that survive cloning, getting and setting."""
import inspect, warnings
from ..common import *
from .. import table as TB
import numpy as np
import pandas as pd

ID = "C21"
RULE = ("classifiers of three tasks with 1 to 6 classes (also with gaps between the labels) on binary arrays, data frames and tables, whose probabilities for training and "
        "other rows are compared with the frequencies of the training labels at the leaf found by following the tree; and estimators of all 13 tasks with random values for all "
        "constructor parameters, compared with their clone, with an estimator that received the parameters through set_params in one call or one by one, and with the folds of "
        "scikit-learn's cross validation; non-trivial: a tree with a branching node")
CASES = {"quick": 40000, "thorough": 300000}
CHUNK = 40
PROBA = ("accuracy", "cost-complex-accuracy", "f1-score")
CV = ("accuracy", "cost-complex-accuracy", "f1-score", "regression", "cost-complex-regression")


def gen(rng, tier, i):
    what = G.pick(rng, ["proba", "params", "cv"], p=[.5, .4, .1])
    nm = G.pick(rng, PROBA if what == "proba" else CV if what == "cv" else sorted(T.ALL))
    t = T.ALL[nm]
    N, F, D = t.size
    n, F = G.ri(rng, 4, min(N, 60)), G.ri(rng, 1, min(F, 6))
    c = t.gen_rows(rng, n, F)
    F = len(c["rows"]["X"][0])
    c["task"], c["what"], c["form"] = nm, what, "array"
    c["params"] = {"max_depth": 0 if G.chance(rng, 0.05) else G.ri(rng, 1, min(3, D)), **t.gen_params(rng, c)}
    if nm.startswith("cost-complex") and G.chance(rng, 0.7): c["params"]["cost_complexity"] = 0.001
    if what == "proba":
        c["form"] = G.pick(rng, ["array", "frame", "table"], p=[.4, .2, .4])
        if c["form"] == "table":
            c["tab"] = TB.table(rng, n, 12)
            c["params"]["continuous_binarize_strategy"] = G.pick(rng, ["quantile", "uniform", "tree"])
            c["params"]["n_thresholds"] = G.ri(rng, 1, 6)
        else: c["later"] = G.binary_matrix(rng, 10, F)
        if nm != "f1-score":
            X = np.array(c["rows"]["X"])
            K = G.ri(rng, 1, 6)
            c["rows"]["y"] = G.labels(rng, X, K) if K > 1 else [0] * n
            if G.chance(rng, 0.5):
                gaps = sorted(int(v) for v in rng.choice(12, size=max(c["rows"]["y"]) + 1, replace=False))
                c["rows"]["y"] = [gaps[v] for v in c["rows"]["y"]]
    else:
        c["params"].update(more_params(rng, t, n))
        c["order"] = int(rng.integers(0, 2 ** 31))
        if G.chance(rng, 0.3): c["cc"] = G.pick(rng, [0.0, 0.002, 0.05, 0.3, 1.0])
        if what == "cv": c["folds"] = G.ri(rng, 2, 4)
    return c


def more_params(rng, t, n):
    """Random valid values for most of the constructor parameters."""
    p = {}
    def some(k, f, q=0.6):
        if k in t.all_args and G.chance(rng, q): p[k] = f()
    some("max_num_nodes", lambda: G.ri(rng, 0, 9) if t.nodes else None)
    some("min_leaf_node_size", lambda: G.ri(rng, 1, max(1, n // 6)))
    for k in ("use_branch_caching", "use_dataset_caching", "use_terminal_solver", "use_similarity_lower_bound", "use_upper_bound", "use_lower_bound",
              "use_task_lower_bound", "all_trees"):
        some(k, lambda: bool(rng.integers(0, 2)))
    some("hyper_tune", lambda: bool(n >= 20 and G.chance(rng, 0.3)))
    some("feature_ordering", lambda: G.pick(rng, ["in-order", "gini"]))
    some("regression_lower_bound", lambda: G.pick(rng, ["equivalent", "kmeans"]))
    some("time_limit", lambda: G.pick(rng, [100, 99.5, 1e4, 3600]))
    some("random_seed", lambda: G.ri(rng, 0, 99))
    some("upper_bound", lambda: G.pick(rng, [2 ** 31 - 1, 1e6, 2.0 ** 20]), 0.2)
    some("continuous_binarize_strategy", lambda: G.pick(rng, ["quantile", "uniform", "tree"]))
    some("n_thresholds", lambda: G.ri(rng, 1, 9))
    some("n_categories", lambda: G.ri(rng, 2, 9))
    return p


def shrinks(case):
    from ..engine import default_shrinks
    if "tab" in case:
        n = len(case["rows"]["X"])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                cut = lambda l: l[:a] + l[a + size:]
                if n - size >= 2: yield {**case, "rows": {k: cut(v) for k, v in case["rows"].items()}, "tab": {**case["tab"], "R": cut(case["tab"]["R"])}}
            size //= 2
        return
    for k in case["params"]:
        if k != "max_depth": yield {**case, "params": {a: b for a, b in case["params"].items() if a != k}}
    for c in default_shrinks(case):
        if len(c["rows"]["X"][0]) == len(case["rows"]["X"][0]): yield c


def quiet_fit(est, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(*a, **k)


def leaf(root, x):
    n = root
    while not n.is_leaf_node(): n = n.right_child if x[n.feature] else n.left_child
    return n


def path(root, x):
    n, out = root, ""
    while not n.is_leaf_node():
        out += "1" if x[n.feature] else "0"
        n = n.right_child if x[n.feature] else n.left_child
    return out


def proba(case):
    t = T.ALL[case["task"]]
    need_rows(case, 2)
    args, kw = t.fit_args(case), {}
    if case["form"] == "table":
        tab = case["tab"]
        args[0], later = TB.data(tab, tab["R"], "frame"), TB.data(tab, tab["later"], "frame")
        kw["categorical"] = TB.categorical(tab, "frame")
    else:
        later = np.array(case["later"]).reshape(len(case["later"]), -1)
        if case["form"] == "frame":
            names = ["c%d" % j for j in range(later.shape[1])]
            args[0], later = pd.DataFrame(args[0], columns=names), pd.DataFrame(later, columns=names)
    est = t.make(case["params"])
    try: r = quiet_fit(est, *args, **kw)
    except ValueError:
        if case["form"] == "table": raise Skip()
        raise
    if r is not est: raise Violation("fit-result", "fit returned %r" % (r,))
    if not fitted(est): return Result(False, ["no tree"])
    root = est.get_tree()
    binary = lambda X: np.asarray(est.binarizer_.transform(X)).astype(int) if case["form"] == "table" else np.asarray(X).astype(int)
    y = np.asarray(args[1]).astype(int)
    classes = sorted(set(y.tolist()))
    groups = {}
    for x, v in zip(binary(args[0]), y): groups.setdefault(path(root, x), []).append(int(v))
    mixed = False
    for X in (args[0], later):
        P, pred = np.asarray(est.predict_proba(X)), np.asarray(est.predict(X))
        if P.shape != (len(pred), len(classes)): raise Violation("shape", "probabilities of shape %r for %d rows and classes %r" % (P.shape, len(pred), classes))
        for i, x in enumerate(binary(X)):
            g = groups[path(root, x)]
            want = [g.count(k) / len(g) for k in classes]
            if np.abs(P[i] - want).max() > 1e-9: raise Violation("frequency", "probabilities %r, the training labels of the leaf have %r (classes %r)" % (P[i].tolist(), want, classes))
            if abs(P[i].sum() - 1) > 1e-9: raise Violation("sum", "probabilities sum to %r" % P[i].sum())
            if case["task"] != "f1-score" and want[classes.index(int(pred[i]))] < max(want) - 1e-12: raise Violation("mode", "predicted %r with frequencies %r" % (pred[i], want))
            mixed = mixed or 0 < max(want) < 1
    return Result(not root.is_leaf_node(), [case["task"], "proba", case["form"], "%d classes" % len(classes)] + ["mixed leaf"] * mixed)


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def outcome(t, case, est):
    """Everything that a user can see of a fit on the case's data."""
    r = quiet_fit(est, *t.fit_args(case))
    if r is not est: raise Violation("fit-result", "fit returned %r" % (r,))
    if not fitted(est): return None
    # the score is compared as text because it is nan where its norm is 0
    return [repr(t.tree(est)), np.asarray(t.predict(est, case)).tolist(), repr(t.score(est, case)), est.get_depth(), est.get_n_leaves()]


def params(case):
    from sklearn.base import clone
    t = T.ALL[case["task"]]
    need_rows(case, 2)
    given = {**t.fixed, **case["params"]}
    if "cc" in case and "cost_complexity" in t.all_args: given["cost_complexity"] = case["cc"]
    if "sens" in case: given["sensitive_feature"] = case["sens"]
    a = t.cls(**given)
    sig = {k: v.default for k, v in inspect.signature(t.cls.__init__).parameters.items() if k != "self"}
    got = a.get_params()
    if set(got) != set(sig): raise Violation("names", "get_params differs from the constructor in %r" % sorted(set(got) ^ set(sig)))
    for k, v in {**sig, **given}.items():
        if not same(got[k], v): raise Violation("get", "parameter %s is %r instead of %r" % (k, got[k], v))
    b = clone(a)
    c = t.cls().set_params(**got)
    d = t.cls()
    for k in np.random.default_rng(case["order"]).permutation(sorted(got)):
        if d.set_params(**{str(k): got[str(k)]}) is not d: raise Violation("set-result", "set_params returned something else")
    first = outcome(t, case, a)
    e = clone(a)
    if fitted(e): raise Violation("clone-fitted", "the clone of a fitted model is fitted")
    lb = [t.name, "params"]
    for what, m in (("clone", b), ("set_params", c), ("set_params one by one", d), ("clone after fit", e), ("the fitted model", a)):
        p = m.get_params()
        for k in sig:
            if not same(p.get(k), got[k]): raise Violation("changed", "%s: parameter %s is %r instead of %r" % (what, k, p.get(k), got[k]))
        o = outcome(t, case, m)
        if o != first: raise Violation("result", "%s gives %r, the original %r" % (what, o, first))
    return Result(first is not None and first[3] > 0, lb + ["%s given" % k for k in sorted(given)], 6)


def cv(case):
    from sklearn.base import clone
    from sklearn.model_selection import cross_val_score, KFold
    t = T.ALL[case["task"]]
    need_rows(case, 12)
    p = {k: v for k, v in case["params"].items() if k not in ("min_leaf_node_size", "hyper_tune", "upper_bound")}  # a tree always exists
    est = t.make(p)
    X, y = t.fit_args(case)
    folds = list(KFold(case["folds"], shuffle=True, random_state=case["order"] % 1000).split(X))
    if t.name == "f1-score" or y.dtype.kind == "i":
        # every label has to occur in the part that is fitted
        if any(set(y[a]) != set(y) for a, _ in folds): raise Skip()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = cross_val_score(est, X, y, cv=folds, error_score="raise")
    if fitted(est): raise Violation("cv-fitted", "cross validation fitted the given estimator")
    deep = 0
    for (a, b), s in zip(folds, got):
        m = quiet_fit(clone(est), X[a], y[a])
        w = m.score(X[b], y[b])
        deep = max(deep, m.get_depth())
        if not T.close(s, w, 1e-9): raise Violation("cv", "cross validation gives %r, fitting the fold %r" % (s, w))
    return Result(deep > 0, [t.name, "cross validation"], len(folds))


def check(case):
    return {"proba": proba, "params": params, "cv": cv}[case["what"]](case)
