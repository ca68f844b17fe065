"""C01: accuracy and cost-complex accuracy trees are optimal (exhaustive oracle)."""
from ..common import *

ID = "C01"
RULE = ("random 0/1 data (n<=60, 1..9 columns; one in eight with 65..260 rows or 10..24 columns, some with 60..140 columns, 1..6 classes), limits, costs and search options, solved and compared with an exhaustive "
        "dynamic program; non-trivial: the optimal tree is strictly better than the best single leaf, or limits make the problem infeasible")
CASES = {"quick": 280000, "thorough": 1500000}
CHUNK = 50
NAMES = ["accuracy", "cost-complex-accuracy"]


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, NAMES, p=[.55, .45])]
    big = G.chance(rng, 0.5)
    n = G.ri(rng, 2, 14) if G.chance(rng, 0.25) else G.ri(rng, 10, 60)
    F = G.ri(rng, 1, 9 if big else 6)
    return t.case(rng, *G.stretch(rng, n, F, 4 if F <= 7 else 3, vast=(60, 140), deep=6))


def check(case):
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    score_ok(t, case, est, tree)
    leaf = t.leaf_cost({**case, "params": {}})((1 << len(case["rows"]["X"])) - 1)
    return Result(opt < leaf - 1e-9, lb)
