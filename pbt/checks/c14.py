"""C14: a fit that runs out of time is honest, valid and leaves no traces."""
import ctypes, time
from ..common import *
import pystreed.cstreed as native

ID = "C14"
RULE = ("all 13 tasks (also tuned fits): the native module reads a clock under the control of the check, which passes the limit at a chosen query; the stop is placed at "
        "random queries of the search and around its first and last ones, and for fits that stay within the limit the clock crosses whole seconds; a "
        "fit within the limit has to be flagged optimal and have the value of an unlimited fit, a stopped one has to give no tree or a valid one with "
        "its true score, flagged optimal only if it has the optimal value; the next fit of the same model has to be optimal again; some larger "
        "problems with a real limit have to end soon after it; non-trivial: the best tree has at least two branching nodes and at least one stop fell inside the search")
CASES = {"quick": 40000, "thorough": 250000}
CHUNK = 10
HANG_CPU = 120.0
SIZES = {"f1-score": (40, 7, 3), "group-fairness": (30, 7, 3), "equality-of-opportunity": (30, 7, 3), "cost-sensitive": (80, 7, 3),
         "piecewise-linear-regression": (80, 6, 3), "simple-linear-regression": (100, 6, 3), "prescriptive-policy": (80, 7, 3),
         "instance-cost-sensitive": (80, 7, 3), "survival-analysis": (80, 7, 3)}
TUNED = ["accuracy", "cost-complex-accuracy", "regression", "cost-sensitive", "instance-cost-sensitive", "f1-score"]
LONG = ["accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression", "cost-sensitive", "f1-score", "instance-cost-sensitive",
        "simple-linear-regression", "group-fairness", "survival-analysis"]
OVERRUN = 30.0                  # seconds of processor time a fit may take beyond its limit
ASSUMPTIONS = ["the native code measures time with time, clock, clock_gettime, gettimeofday or the std::chrono clocks"]

lib = ctypes.CDLL(native.__file__)
lib.pbt_clock_start.argtypes = [ctypes.c_double, ctypes.c_double, ctypes.c_long, ctypes.c_double]
lib.pbt_clock_stop.restype = ctypes.c_long
lib.pbt_clock_now.restype = ctypes.c_double


def gen(rng, tier, i):
    if i % (300 if tier == "quick" else 1000) == 7:
        t = T.ALL[G.pick(rng, LONG)]
        c = t.gen_rows(rng, {"group-fairness": 300, "f1-score": 500}.get(t.name, 1500), 40)
        return {**c, "task": t.name, "kind": "long", "limit": G.pick(rng, [0.05, 0.2, 1.0]),
                "params": {**t.gen_params(rng, c), "max_depth": 5, **G.options(rng, t.accepted, 0.2)}}
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = SIZES.get(t.name, (150, 10, 4))
    n = G.ri(rng, 4, N) if G.chance(rng, 0.8) else G.ri(rng, 4, 20)
    tuned = t.name in TUNED and G.chance(rng, 0.15)
    if tuned: n, F, D = min(n, 40), min(F, 5), min(D, 2)
    one = {"C": 1} if t.name == "piecewise-linear-regression" else {}
    c = t.gen_rows(rng, n, G.ri(rng, 1, F), **one)
    c["task"] = t.name
    c["kind"] = "tuned" if tuned else "plain"
    c["params"] = t.gen_limits(rng, n, D)
    c["params"].update(t.gen_params(rng, c))
    c["params"].update(G.options(rng, t.accepted, 0.3))
    if "all_trees" in t.accepted and G.chance(rng, 0.15): c["params"]["all_trees"] = True
    c["limit"] = G.pick(rng, [0.01, 0.3, 1.0, 2.5, 60.0, 600.0])
    c["start"] = float(G.ri(rng, 1, 10 ** 9)) + G.pick(rng, [0.0, 0.5, 0.999, 0.999999])
    # fractions of the number of queries of the full search; negative: counted from the end
    c["stops"] = [round(float(rng.uniform(0, 1)), 4) for _ in range(4)] + [G.pick(rng, [1, 2, 3, 4, 5, 8]), -G.pick(rng, [0, 1, 2, 3, 4])]
    c["tick"] = G.chance(rng, 0.3)
    return c


def shrinks(case):
    from ..engine import default_shrinks
    if "stops" in case and len(case["stops"]) > 1:
        for i in range(len(case["stops"])): yield {**case, "stops": case["stops"][:i] + case["stops"][i + 1:]}
    yield from default_shrinks(case)


def timed_fit(case, limit, step=0.0, at=0, jump=0.0, est=None):
    """(task, model, tree, queries, elapsed) of a fit under the virtual clock."""
    need_rows(case)
    t = T.ALL[case["task"]]
    extra = {"hyper_tune": True} if case["kind"] == "tuned" else {}
    if est is None: est = t.make({**case["params"], **extra, "time_limit": limit})
    else: est.set_params(time_limit=limit)
    lib.pbt_clock_start(case["start"], step, at, jump)
    try:
        t.fit(est, case)
    finally:
        q = lib.pbt_clock_stop()
    return t, est, (t.tree(est) if fitted(est) else None), q, lib.pbt_clock_now() - case["start"]


def train_score_ok(t, case, est, tree, where):
    exp = t.score_of(tree, case, case)
    if exp is None: return
    got = est.fit_result.score()
    tol = 1e-6 * (t.score_scale(case) if hasattr(t, "score_scale") else 1)
    if not (T.close(got, exp, 1e-6) or abs(got - exp) <= tol): raise Violation("score", "%s: reported score %r, the tree's is %r" % (where, got, exp))
    if est.fit_result.tree_depth() != O.depth_of(tree) or est.fit_result.tree_nodes() != O.nodes_of(tree):
        raise Violation("reported-size", "%s: reported depth %d and %d nodes, the tree is %r" % (where, est.fit_result.tree_depth(), est.fit_result.tree_nodes(), tree))


def long_fit(case):
    t = T.ALL[case["task"]]
    est = t.make({**case["params"], "time_limit": case["limit"]})
    t0 = time.process_time()
    t.fit(est, case)
    used = time.process_time() - t0
    if used > case["limit"] + OVERRUN: raise Violation("overrun", "a fit with a limit of %r s used %.1f s" % (case["limit"], used))
    tree = t.tree(est) if fitted(est) else None
    if tree is not None:
        size_ok(t, case, tree)
        train_score_ok(t, case, est, tree, "real limit")
    return Result(tree is not None and not est.fit_result.is_optimal(), [case["task"], "real-limit", "used<%ds" % (int(used) + 1)])


def check(case):
    if case["kind"] == "long": return long_fit(case)
    lb = label_limits(case, T.ALL[case["task"]]) + [case["kind"], "limit %g" % case["limit"]]
    t, est, tree, Q, _ = timed_fit(case, 1e6)
    if tree is not None and not est.fit_result.is_optimal(): raise Violation("not-flagged", "the clock stood still, but the fit is not flagged optimal")
    if Q == 0: raise Skip()
    best = value(t, case, tree)
    L = case["limit"]

    def honest(e, tr, where):
        if tr is None: return
        size_ok(t, case, tr)
        train_score_ok(t, case, e, tr, where)
        v = value(t, case, tr)
        if case["kind"] == "tuned": return
        if "sens" not in case and v < best - T.slack(t, case, best): raise Violation("unlimited-not-optimal", "%s: objective %r, the unlimited fit has %r" % (where, v, best))
        if e.fit_result.is_optimal(): agree(t, case, tree, tr, "an unlimited fit", "a fit flagged optimal (%s)" % where)
    # within the limit: every query takes some time, in total less than the limit
    t, e, tr, q, used = timed_fit(case, L, step=0.9 * L / (Q + 1))
    if used < L:
        lb.append("within-limit")
        if (tr is None) != (tree is None): raise Violation("within-limit", "limit %r not reached (%r used), tree %r instead of %r" % (L, used, tr, tree))
        if tr is not None and not e.fit_result.is_optimal(): raise Violation("within-limit", "the fit used %r s of %r s, but is not flagged optimal" % (used, L))
        if case["kind"] == "plain": agree(t, case, tree, tr, "an unlimited fit", "a fit within its limit")
    inside = False
    for s in case["stops"]:
        at = max(1, int(s * Q)) if isinstance(s, float) else s if s > 0 else max(1, Q + s)
        where = "stopped at clock query %d of %d" % (at, Q)
        if case["tick"]: t, e, tr, q, used = timed_fit(case, L, step=L / at)
        else: t, e, tr, q, used = timed_fit(case, L, at=at, jump=2 * L + 5)
        honest(e, tr, where)
        if tr is not None and e.fit_result.is_optimal(): lb.append("stop-still-optimal")
        else:
            lb.append("stopped-no-tree" if tr is None else "stopped-with-tree")
            inside = True
    # the same model again, without a stop
    t, e, tr, q, used = timed_fit(case, 1e6, est=e)
    if (tr is None) != (tree is None): raise Violation("after-stop", "after a stopped fit, an unlimited fit gives %r instead of %r" % (tr, tree))
    if tr is not None and not e.fit_result.is_optimal(): raise Violation("after-stop", "after a stopped fit, an unlimited fit is not flagged optimal")
    if case["kind"] == "plain": agree(t, case, tree, tr, "a first unlimited fit", "one after a stopped fit")
    return Result(inside and tree is not None and O.nodes_of(tree) >= 2, lb, 3 + len(case["stops"]))
