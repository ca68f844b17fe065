"""C15: a tuned fit is an optimal fit for the chosen setting, and the choice follows the validation score."""
from ..common import *
import numpy as np

ID = "C15"
RULE = ("every task that can be tuned, random data, limits, options and seeds: the tuned tree is compared with a direct fit (and on small data with the "
        "exhaustive oracle) for the setting that the tuned model reports, the setting with the user's limits, score and predictions with the tree, and "
        "a second tuned fit with the first; on noise-free data in which every pattern is repeated often the tuned tree has to be perfect; non-trivial: "
        "the tuned tree has a branching node and the limits allow a larger or a smaller tree")
CASES = {"quick": 55000, "thorough": 400000}
CHUNK = 8
SIZES = {"f1-score": (30, 4, 2), "group-fairness": (24, 4, 2), "equality-of-opportunity": (24, 4, 2), "cost-sensitive": (50, 5, 2),
         "piecewise-linear-regression": (40, 3, 2), "simple-linear-regression": (50, 4, 2), "prescriptive-policy": (50, 5, 2),
         "instance-cost-sensitive": (50, 5, 2), "survival-analysis": (50, 4, 2), "cost-complex-regression": (60, 5, 3)}
TUNED = ["max_depth", "max_num_nodes", "cost_complexity", "lasso_penalty", "ridge_penalty"]
CLEAR = ["accuracy", "regression", "instance-cost-sensitive"]          # the size is tuned and a perfect tree has the best score


def tunable():
    return [k for k in sorted(T.ALL) if "hyper_tune" in T.ALL[k].all_args]


def gen(rng, tier, i):
    if i % 10 == 3: return gen_clear(rng)
    t = T.ALL[G.pick(rng, tunable())]
    N, F, D = SIZES.get(t.name, (60, 5, 3))
    n = G.ri(rng, 10, N) if G.chance(rng, 0.85) else G.ri(rng, 2, 12)
    one = {"C": 1} if t.name == "piecewise-linear-regression" else {}
    c = t.gen_rows(rng, n, G.ri(rng, 1, F), **one)
    c["task"] = t.name
    c["kind"] = "random"
    c["params"] = t.gen_limits(rng, n, D)
    c["params"].update(t.gen_params(rng, c))
    c["params"].update(G.options(rng, t.accepted, 0.25))
    c["seed"] = G.ri(rng, 0, 10 ** 6)
    return c


def gen_clear(rng):
    """Labels given by a random tree over few columns, every pattern repeated often."""
    t = T.ALL[G.pick(rng, CLEAR)]
    F, depth = G.ri(rng, 1, 3), G.ri(rng, 1, 2)
    D = G.pick(rng, [depth, depth, 3])

    def grow(d, left):
        if d == 0 or not left or G.chance(rng, 0.15): return None
        f = G.pick(rng, left)
        return [f, grow(d - 1, [g for g in left if g != f]), grow(d - 1, [g for g in left if g != f])]
    tree, leaves = grow(depth, list(range(F))), []

    def value(tr, x, path=""):
        if tr is None:
            if path not in leaves: leaves.append(path)
            return leaves.index(path)
        return value(tr[1 + x[tr[0]]], x, path + str(x[tr[0]]))
    pats = [[(k >> j) & 1 for j in range(F)] for k in range(2 ** F)]
    m = G.ri(rng, 40, 60)
    X = [list(p) for p in pats for _ in range(m)]
    lab = [value(tree, x) for x in X]
    order = [int(v) for v in rng.permutation(len(X))]
    X, lab = [X[k] for k in order], [lab[k] for k in order]
    vals = [int(v) for v in rng.permutation(4)]
    if t.name == "accuracy": rows = {"X": X, "y": [vals[v] for v in lab]}
    elif t.name == "regression": rows = {"X": X, "y": [float(vals[v]) * 2.5 for v in lab]}
    else: rows = {"X": X, "C": [[0.0 if k == vals[v] else 1.0 + k for k in range(4)] for v in lab]}
    c = {"rows": rows, "task": t.name, "kind": "clear", "params": {"max_depth": D}, "seed": G.ri(rng, 0, 10 ** 6)}
    c["params"].update(G.options(rng, t.accepted, 0.2))
    return c


def shrinks(case):
    from ..engine import default_shrinks
    if case["kind"] == "clear":                      # rows carry the argument that the tuned tree is perfect
        for k in case["params"]:
            if k != "max_depth": yield {**case, "params": {a: b for a, b in case["params"].items() if a != k}}
        return
    yield from default_shrinks(case)


def check(case):
    t, est, tree = fit(case, hyper_tune=True, random_seed=case["seed"])
    lb = label_limits(case, t) + [case["kind"]]
    p = est.get_solver_params()
    d, k, _ = t.limit(case)
    chosen = {q: getattr(p, q) for q in TUNED if q in t.all_args}
    if chosen["max_depth"] > d or chosen["max_num_nodes"] > k: raise Violation("limits", "tuned setting %r exceeds depth %d, %d nodes" % (chosen, d, k))
    direct = {**case["params"], **chosen}
    if not t.nodes: direct.pop("max_num_nodes", None)
    tuned = {**case, "params": direct}
    _, e, tr = fit(tuned)
    if tree is not None:
        size_ok(t, case, tree)
        size_ok(t, tuned, tree)
        if not est.fit_result.is_optimal(): raise Violation("not-flagged-optimal", "completed tuned fit is not flagged optimal")
    agree(t, tuned, tree, tr, "the tuned fit", "a direct fit with the tuned setting %r" % chosen)
    if tree is not None:
        exp = t.score_of(tree, tuned, tuned)
        got = est.fit_result.score()
        tol = 1e-6 * (t.score_scale(tuned) if hasattr(t, "score_scale") else 1)
        if exp is not None and not (T.close(got, exp, 1e-6) or abs(got - exp) <= tol): raise Violation("score", "score %r, computed from the tree %r" % (got, exp))
        again = t.score(est, tuned)
        if not (T.close(got, again, 1e-6) or abs(got - again) <= tol): raise Violation("score-again", "score of the fit %r, on the same data %r" % (got, again))
        if t.name != "survival-analysis":
            for i, (a, b) in enumerate(zip(np.asarray(t.predict(est, tuned)).tolist(), t.leaf_values(tree, tuned))):
                if not T.close(float(a), float(b), 1e-7): raise Violation("prediction", "row %d is predicted %r, its leaf has %r" % (i, a, b))
    if case["kind"] == "clear":
        if tree is None or t.objective(tree, case) > 1e-6: raise Violation("bad-choice", "noise-free data, but the tuned tree is not perfect: %r (setting %r)" % (tree, chosen))
    _, e2, tr2 = fit(case, hyper_tune=True, random_seed=case["seed"])
    if repr(tr2) != repr(tree): raise Violation("not-reproducible", "two tuned fits with the same seed: %r / %r" % (tree, tr2))
    lb += ["chosen:%s=%s" % (q, chosen[q]) for q in ("max_depth",)]
    return Result(tree is not None and tree[0] == "B", lb, 3)
