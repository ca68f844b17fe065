"""C07: trees with linear models in the leaves are optimal and predict with the model of the leaf."""
from ..common import *

ID = "C07"
RULE = ("random 0/1 data with 1..3 continuous columns (n<=120, 1..6 split columns), penalties, costs, limits and search options, compared with "
        "an exhaustive program over separately fitted leaf models; non-trivial: the optimal tree beats the best single model by more than the tolerance")
CASES = {"quick": 150000, "thorough": 900000}
CHUNK = 50


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, ["simple-linear-regression", "piecewise-linear-regression"])]
    if G.chance(rng, 0.08): return t.case(rng, G.ri(rng, 60, 120), G.ri(rng, 3, 6), 3)
    n = G.ri(rng, 5, 20) if G.chance(rng, 0.2) else G.ri(rng, 15, 60)
    F = G.ri(rng, 1, 4)
    return t.case(rng, n, F, 3 if F <= 3 else 2)


def check(case):
    t, est, tree = fit(case)
    opt = t.optimum(case)
    # descent on nearly collinear columns ends early: such data is not judged for optimality
    judged = t.name != "piecewise-linear-regression" or t.conditioning > 0.03 or (tree is None) != (opt == math.inf)
    if judged: optimal(t, case, est, tree, opt)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    exp = t.leaf_values(tree, case)
    got = [float(v) for v in t.predict(est, case)]
    tol = 1e-6 * (1 + max(abs(v) for v in case["rows"]["y"]))
    for i, (a, b) in enumerate(zip(got, exp)):
        if not abs(a - b) <= tol: raise Violation("prediction", "row %d is predicted %r, its leaf model gives %r" % (i, a, b))
    single = t.leaf_fit(case)((1 << len(exp)) - 1)
    if not judged: return Result(False, lb + ["collinear"])
    return Result(opt < single - T.slack(t, case, opt), lb)
