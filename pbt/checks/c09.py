"""C09: every returned tree respects the limits, its reported sizes are right, infeasibility is reported."""
from ..common import *

ID = "C09"
RULE = ("all 13 tasks on random data up to 150 rows and 14 columns with random limits up to depth 5 and search options; the returned tree is "
        "measured directly; non-trivial: some limit is reached (depth, nodes or leaf size) or no tree exists")
CASES = {"quick": 200000, "thorough": 900000}
CHUNK = 40
BIG = {"f1-score": (60, 7, 4), "group-fairness": (40, 6, 3), "equality-of-opportunity": (40, 6, 3), "piecewise-linear-regression": (150, 6, 3),
       "simple-linear-regression": (150, 8, 4)}


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = BIG.get(t.name, (150, 14, 5))
    n = G.ri(rng, 2, 15) if G.chance(rng, 0.3) else G.ri(rng, 10, N)
    f = G.ri(rng, 1, F)
    return t.case(rng, n, f, D if f <= 8 else min(D, 4))


def is_full(u):
    if u.is_leaf_node(): return not u.is_branching_node()
    return u.is_branching_node() and u.left_child is not None and u.right_child is not None and is_full(u.left_child) and is_full(u.right_child)


def check(case):
    t, est, tree = fit(case)
    d, k, ml = t.limit(case)
    X = case["rows"]["X"]
    lb = label_limits(case, t)
    if len(X) < ml:
        if tree is not None: raise Violation("infeasible-accepted", "%d rows cannot fill a leaf of %d, but a tree was returned" % (len(X), ml))
        if not any("No feasible tree" in w for w in t.last_warnings): raise Violation("silent-infeasible", "no warning: %r" % t.last_warnings)
        return Result(True, lb + ["infeasible"])
    if tree is None: raise Violation("feasible-missed", "a single leaf is within the limits, but no tree was returned")
    size_ok(t, case, tree)
    if not is_full(est.tree_): raise Violation("not-binary", "a branching node lacks a child or a leaf has one")
    for f in O.features_of(tree):
        if not 0 <= f < len(X[0]): raise Violation("feature-range", "tested feature %d of %d" % (f, len(X[0])))
    dd, nn = O.depth_of(tree), O.nodes_of(tree)
    for what, got, exp in [("depth", est.get_depth(), dd), ("number of leaves", est.get_n_leaves(), nn + 1), ("tree depth of the result", est.fit_result.tree_depth(), dd),
                           ("node count of the result", est.fit_result.tree_nodes(), nn), ("depth of the tree", est.tree_.get_depth(), dd) if hasattr(est.tree_, "get_depth") else ("", 0, 0)]:
        if got != exp: raise Violation("reported-size", "reported %s is %r, the tree has %r: %r" % (what, got, exp, tree))
    small = min((len(idx) for _, idx, _ in O.partition(tree, X)), default=0)
    tight = (dd == d, nn == k, small == ml and ml > 1)
    return Result(any(tight), lb + [n for n, v in zip(["depth-tight", "nodes-tight", "leaf-tight"], tight) if v])
