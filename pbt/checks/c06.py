"""C06: regression and cost-complex regression trees are optimal and predict leaf means."""
from ..common import *

ID = "C06"
RULE = ("random 0/1 data with real targets (n<=50, 1..8 columns; one in eight with 65..200 rows or 10..24 columns, some with 60..100 columns), limits, costs and search options, compared with an exhaustive program; "
        "non-trivial: the optimal tree beats a single leaf by more than the tolerance")
CASES = {"quick": 280000, "thorough": 1500000}
CHUNK = 50


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, ["regression", "cost-complex-regression"])]
    n = G.ri(rng, 2, 12) if G.chance(rng, 0.25) else G.ri(rng, 8, 50)
    F = G.ri(rng, 1, 8)
    return t.case(rng, *G.stretch(rng, n, F, 4 if F <= 5 else 3, (65, 200, 5, 3), vast=(60, 100), deep=5))


def check(case):
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    ss, yy = t.scale(case)
    y = case["rows"]["y"]
    tol = 1e-5 * max(1.0, max(abs(v) for v in y))
    for l, idx, _ in O.partition(tree, case["rows"]["X"]):
        mean = sum(y[i] for i in idx) / len(idx)
        if abs(l[1] - mean) > tol: raise Violation("leaf-mean", "leaf value %r, mean of its instances %r" % (l[1], mean))
    got, exp = est.fit_result.score(), t.score_of(tree, case)
    if abs(got - exp) > 1e-6 * (1 + yy / len(y)): raise Violation("score", "training score is %r, the tree's is %r" % (got, exp))
    return Result(opt < ss - T.slack(t, case, opt), lb)
