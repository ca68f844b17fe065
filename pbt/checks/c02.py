"""C02: F1-score trees are optimal (exhaustive Pareto oracle)."""
from ..common import *

ID = "C02"
RULE = ("random 0/1 data with binary labels and at least one positive (n<=40, 1..7 columns; one in eight with 65..130 rows or 8..12 columns), limits and search options, compared with an "
        "exhaustive Pareto front of (false positives, false negatives); non-trivial: the best F1-score beats every single leaf, or no tree is feasible")
CASES = {"quick": 280000, "thorough": 1500000}
CHUNK = 50


def gen(rng, tier, i):
    t = T.ALL["f1-score"]
    n = G.ri(rng, 2, 12) if G.chance(rng, 0.25) else G.ri(rng, 8, 40)
    F = G.ri(rng, 1, 7)
    return t.case(rng, *G.stretch(rng, n, F, 4 if F <= 3 else 3, (65, 130, 4, 2), (8, 12, 2)))


def check(case):
    if sum(case["rows"]["y"]) == 0: raise Skip()
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    score_ok(t, case, est, tree)
    P, n = sum(case["rows"]["y"]), len(case["rows"]["y"])
    return Result(-opt > t.f1(P, n - P, 0) + 1e-9, lb)
