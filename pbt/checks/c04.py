"""C04: cost-sensitive trees minimise misclassification plus test costs; the score is normalised."""
from ..common import *

ID = "C04"
RULE = ("random 0/1 data, misclassification matrix and test costs with groups, discounts and multi-column features (n<=40, 1..7 columns; one in eight with 65..200 rows or 8..16 columns), "
        "compared with an exhaustive program over (rows, tests already paid); non-trivial: the optimal tree beats the best single leaf and some test has a cost")
CASES = {"quick": 280000, "thorough": 1500000}
CHUNK = 40


def gen(rng, tier, i):
    t = T.ALL["cost-sensitive"]
    n = G.ri(rng, 2, 12) if G.chance(rng, 0.25) else G.ri(rng, 8, 40)
    F = G.ri(rng, 1, 7)
    return t.case(rng, *G.stretch(rng, n, F, 3, (65, 200, 5, 3), (8, 16, 2), deep=4))


def check(case):
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    score_ok(t, case, est, tree)
    c0 = {**case, "params": {"max_depth": 0}}
    paid = any(s[0] > 0 for s in case["aux"]["specs"])
    return Result(opt < t.optimum(c0) - 1e-6 and paid, lb + (["tests-cost"] if paid else []))
