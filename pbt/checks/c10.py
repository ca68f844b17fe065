"""C10: predictions, scores and question lengths on any data follow from the returned tree."""
import json
from ..common import *
import numpy as np

ID = "C10"
RULE = ("all 13 tasks: a model is fitted on random data and asked about other random rows (also single rows, rows of one class, repeated and "
        "reordered rows); predictions, score and question length are recomputed from the returned tree; non-trivial: the tree has a branching node "
        "and the other rows reach at least two leaves")
CASES = {"quick": 130000, "thorough": 900000}
CHUNK = 40


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N = {"f1-score": 40, "group-fairness": 30, "equality-of-opportunity": 30}.get(t.name, 70)
    n, m, F = G.ri(rng, 4, N), G.pick(rng, [1, 2, 3, G.ri(rng, 1, 20), G.ri(rng, 10, 150)]), G.ri(rng, 1, 6)
    c = t.case(rng, n + m, F, 3)
    style = G.pick(rng, ["rest", "rest", "mixed", "same", "flip"])
    idx = list(range(n, n + m))
    if style == "mixed": idx = [int(v) for v in rng.integers(0, n + m, m)]
    if style == "same": idx = [int(v) for v in rng.permutation(n)]
    rows = {k: [list(v) if hasattr(v, "__len__") else v for v in c["rows"][k]] for k in c["rows"]}
    c["test"] = {k: [rows[k][i] for i in idx] for k in rows}
    if style == "flip" and "y" in rows and t.name in ("accuracy", "cost-complex-accuracy", "f1-score", "cost-sensitive"):
        v = G.pick(rng, sorted({int(y) for y in rows["y"][:n]}))
        c["test"]["y"] = [v] * len(idx)               # rows of a single class
    c["rows"] = {k: rows[k][:n] for k in rows}
    c["order"] = [int(v) for v in rng.permutation(len(idx))]
    c["style"] = style
    return c


def shrinks(case):
    from ..engine import default_shrinks
    yield from default_shrinks(case)
    n = len(case["test"]["X"])
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            c = json.loads(json.dumps(case))
            for k in c["test"]: del c["test"][k][a:a + size]
            if not c["test"]["X"]: continue
            keep = sorted(c["order"][:len(c["test"]["X"])])
            c["order"] = [keep.index(v) for v in c["order"][:len(c["test"]["X"])]]
            yield c
        size //= 2


def check(case):
    t, est, tree = fit(case)
    if tree is None: raise Skip()
    train = {k: v for k, v in case.items() if k not in ("test", "order")}
    if len(case["test"]["X"][0]) != len(case["rows"]["X"][0]): raise Skip()
    test = {**train, "rows": case["test"]}
    lb = [case["task"], case["style"]]

    def predicted(c):
        if t.name == "survival-analysis": return None
        return [v for v in np.asarray(t.predict(est, c)).tolist()]

    def same(c, got, what):
        exp = t.leaf_values(tree, c)
        if len(got) != len(exp): raise Violation("prediction-count", "%d predictions for %d rows" % (len(got), len(exp)))
        for i, (a, b) in enumerate(zip(got, exp)):
            if not T.close(float(a), float(b), 1e-7): raise Violation("prediction", "%s: row %d is predicted %r, its leaf has %r" % (what, i, a, b))

    for c, what in [(train, "training rows"), (test, "other rows")]:
        got = predicted(c)
        if got is not None: same(c, got, what)
    order = case["order"]
    if sorted(order) == list(range(len(test["rows"]["X"]))):
        perm = {**test, "rows": {k: [v[i] for i in order] for k, v in test["rows"].items()}}
        got = predicted(perm)
        if got is not None: same(perm, got, "reordered rows")
    # scores
    tr = est.fit_result.score()
    tol = 1e-6 * t.score_scale(train) if hasattr(t, "score_scale") else 1e-6

    def scores(c, got, what):
        exp = t.score_of(tree, c, train)
        if exp is None: return False
        tl = tol if not hasattr(t, "score_scale") else 1e-6 * max(t.score_scale(c), t.score_scale(train))
        if not (T.close(got, exp, 1e-6) or abs(got - exp) <= tl): raise Violation("score", "%s: score %r, computed from the tree %r" % (what, got, exp))
        return True
    scores(train, tr, "training score")
    again = t.score(est, train)
    if not T.close(again, tr, 1e-6) and not abs(again - tr) <= tol: raise Violation("train-score", "score of the fit is %r, score on the same data %r" % (tr, again))
    if scores(test, t.score(est, test), "other rows"): lb.append("scored")
    # question length
    for c, what in [(train, "training rows"), (test, "other rows")]:
        got = t.qlen(est, c)
        exp = sum(len(O.leaf_of(tree, x)[1]) + 1 for x in c["rows"]["X"]) / len(c["rows"]["X"])   # the leaf counts
        if not T.close(got, exp, 1e-6): raise Violation("question-length", "%s: %r, paths give %r" % (what, got, exp))
        lb.append("question-length")
    reached = {id(O.leaf_of(tree, x)[0]) for x in test["rows"]["X"]}
    return Result(tree[0] == "B" and len(reached) > 1, lb)
