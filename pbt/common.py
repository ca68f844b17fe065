"""Steps shared by the checks."""
import math
from . import oracle as O, tasks as T, gen as G
from .engine import Violation, Skip, Result


def need_rows(case, k=2):
    if len(case["rows"]["X"]) < k: raise Skip()


def fitted(est):
    return getattr(est, "fit_result", None) is not None


def fit(case, **extra):
    """(task, estimator, tree or None) after a fit with the case's parameters."""
    t = T.ALL[case["task"]]
    need_rows(case)
    est = t.make({**case["params"], **extra})
    t.fit(est, case)
    return t, est, (t.tree(est) if fitted(est) else None)


def size_ok(t, case, tree):
    """The returned tree respects the limits."""
    d, k, ml = t.limit(case)
    if O.depth_of(tree) > d: raise Violation("depth-limit", "tree depth %d exceeds %d: %r" % (O.depth_of(tree), d, tree))
    if O.nodes_of(tree) > k: raise Violation("node-limit", "tree has %d nodes, limit %d: %r" % (O.nodes_of(tree), k, tree))
    for l, idx, _ in O.partition(tree, case["rows"]["X"]):
        if len(idx) < ml: raise Violation("leaf-size", "leaf with %d instances, minimum %d: %r" % (len(idx), ml, tree))


def optimal(t, case, est, tree, opt=None):
    """Feasibility and optimality against the exhaustive oracle; returns the optimum."""
    opt = t.optimum(case) if opt is None else opt
    if opt == math.inf:
        if tree is not None: raise Violation("infeasible-accepted", "no tree within the limits exists, but one was returned: %r" % (tree,))
        return opt
    if tree is None: raise Violation("feasible-missed", "a tree with objective %r exists, none was returned" % opt)
    size_ok(t, case, tree)
    v = t.objective(tree, case)
    s = T.slack(t, case, opt)
    if v > opt + s: raise Violation("not-optimal", "objective %r, a tree with %r exists; returned %r" % (v, opt, tree))
    if v < opt - s: raise Violation("oracle-mismatch", "objective %r is below the exhaustive optimum %r: %r" % (v, opt, tree))
    if not est.fit_result.is_optimal(): raise Violation("not-flagged-optimal", "completed fit is not flagged optimal")
    return opt


def score_ok(t, case, est, tree, got=None, train=None, what="training score"):
    exp = t.score_of(tree, case, train)
    if exp is None: return
    got = est.fit_result.score() if got is None else got
    if not T.close(got, exp, max(t.tol, 1e-6) if t.tol > 1e-6 else 1e-6):
        raise Violation("score", "%s is %r, the tree's is %r: %r" % (what, got, exp, tree))


def label_limits(case, t):
    p = case["params"]
    lb = [case["task"], "depth%d" % p.get("max_depth", 3)]
    if p.get("max_num_nodes") is not None: lb.append("node-limit")
    if p.get("min_leaf_node_size", 1) > 1: lb.append("leaf-size")
    lb += [k + "=" + str(p[k]) for k in sorted(p) if k.startswith("use_") or k == "feature_ordering"]
    return lb


def value(t, case, tree):
    return math.inf if tree is None else t.objective(tree, case)


def agree(t, case, A, B, na, nb):
    """Two fits of the same problem have to have the same feasibility and objective value."""
    a, b = value(t, case, A), value(t, case, B)
    if a == b: return
    if "sens" in case:
        # trees within rounding distance of the fairness limit may be seen on either side, and a copy of the sensitive column may be skipped
        good, tree = (a, A) if a < b else (b, B)
        if t.proxies(case) and set(O.features_of(tree)) & set(t.proxies(case)): return
        if t.disc(tree, case) > t.limit_disc(case) - 2e-4: return
    elif a < math.inf and b < math.inf and abs(a - b) <= T.slack(t, case, min(a, b)): return
    raise Violation("disagreement", "objective %r with %s, %r with %s: %r / %r" % (a, na, b, nb, A, B))
