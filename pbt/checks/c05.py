"""C05: instance-cost-sensitive trees and prescriptive policies are optimal for the given costs."""
from ..common import *

ID = "C05"
RULE = ("random 0/1 data with per-instance label costs, or historic treatments with teacher estimates for all three teacher methods "
        "(n<=40, 1..8 columns; one in eight with 65..160 rows or 10..24 columns, some with 60..80 columns), compared with an exhaustive program; non-trivial: the optimal tree beats the best single leaf")
CASES = {"quick": 220000, "thorough": 1500000}
CHUNK = 50


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, ["instance-cost-sensitive", "prescriptive-policy"])]
    n = G.ri(rng, 4, 12) if G.chance(rng, 0.25) else G.ri(rng, 8, 40)
    F = G.ri(rng, 1, 8)
    return t.case(rng, *G.stretch(rng, n, F, 4 if F <= 5 else 3, (65, 160, 5, 3), vast=(60, 80), deep=5))


def check(case):
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    score_ok(t, case, est, tree)
    return Result(opt < t.optimum({**case, "params": {**case["params"], "max_depth": 0, "min_leaf_node_size": 1}}) - 1e-6, lb)
