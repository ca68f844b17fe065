"""C03: fairness-constrained trees respect the limit and are the most accurate ones that do."""
from ..common import *

ID = "C03"
RULE = ("random 0/1 data with a sensitive column and binary labels (n<=24, 2..6 columns; one in eight with 65..100 rows or 7..10 columns) for both fairness tasks, random limits, solved and "
        "compared with an exhaustive table of (group difference -> fewest errors); trees within 2e-4 of the limit may fall on either side; "
        "non-trivial: the fairness limit changes the optimum or the optimum beats a single leaf")
CASES = {"quick": 250000, "thorough": 1500000}
CHUNK = 50
ASSUMPTIONS = ["both groups (for equality of opportunity: their positive instances) are non-empty"]


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, ["group-fairness", "equality-of-opportunity"])]
    n = G.ri(rng, 4, 24)
    F = G.ri(rng, 2, 6)
    return t.case(rng, *G.stretch(rng, n, F, 3, (65, 100, 4, 2), (7, 10, 2)))


def check(case):
    t = T.ALL[case["task"]]
    X, y = case["rows"]["X"], case["rows"]["y"]
    g0, g1 = t.relevant(case)
    if not g0 or not g1 or case["sens"] >= len(X[0]): raise Skip()
    t, est, tree = fit(case)
    inner, outer = t.bounds(case)
    lb = label_limits(case, t)
    if tree is None:
        if inner < math.inf: raise Violation("feasible-missed", "a tree with %d errors exists, none was returned" % inner)
        return Result(True, lb + ["infeasible"])
    size_ok(t, case, tree)
    lim = t.limit_disc(case)
    d = t.disc(tree, case)
    if d > lim + 2e-4: raise Violation("unfair", "difference %r exceeds the limit %r: %r" % (d, lim, tree))
    if case["sens"] in O.features_of(tree): raise Violation("sensitive-split", "the tree tests the sensitive feature: %r" % (tree,))
    err = t.objective(tree, case)
    if err > inner: raise Violation("not-optimal", "%d errors, a fair tree with %d exists; returned %r" % (err, inner, tree))
    if err < outer: raise Violation("oracle-mismatch", "%d errors, below the exhaustive optimum %d: %r" % (err, outer, tree))
    if not est.fit_result.is_optimal(): raise Violation("not-flagged-optimal", "completed fit is not flagged optimal")
    score_ok(t, case, est, tree)
    free = min(t.table(case, t.proxies(case))[0].values())
    return Result(free < inner or inner < min(sum(y), len(y) - sum(y)), lb + (["binding"] if free < inner else []))
