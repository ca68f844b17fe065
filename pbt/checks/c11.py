"""C11: search options and a valid initial upper bound never change the optimal value."""
import json
from ..common import *

ID = "C11"
RULE = ("all 13 tasks, data sets beyond the reach of the exhaustive oracle (n<=300, up to 14 columns, depth<=4), each fitted with the defaults and "
        "with three random settings of the search options (caching, depth-two solver, bounds, feature order, sizes in increasing order) and, where "
        "the objective is a single number, with upper bounds above and below the optimum; feasibility and objective have to agree; non-trivial: the "
        "best tree has at least two branching nodes")
CASES = {"quick": 65000, "thorough": 400000}
CHUNK = 10
SIZES = {"f1-score": (60, 8, 3), "group-fairness": (40, 8, 3), "equality-of-opportunity": (40, 8, 3), "cost-sensitive": (120, 8, 3),
         "piecewise-linear-regression": (120, 6, 3), "simple-linear-regression": (150, 6, 3), "prescriptive-policy": (120, 8, 3),
         "instance-cost-sensitive": (120, 8, 3), "regression": (200, 9, 4), "cost-complex-regression": (200, 9, 4), "survival-analysis": (120, 8, 3)}
BOUNDED = ["accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression", "simple-linear-regression", "cost-sensitive"]


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = SIZES.get(t.name, (300, 14, 4))
    n = G.ri(rng, 4, N) if G.chance(rng, 0.7) else G.ri(rng, 4, 30)
    F, D = (G.ri(rng, 1, F), D) if n <= 150 else (G.ri(rng, 1, min(F, 9)), D)
    if F > 9: D = 3
    one = {"C": 1} if t.name == "piecewise-linear-regression" else {}
    c = t.gen_rows(rng, n, F, **one)
    c["task"] = t.name
    c["params"] = t.gen_limits(rng, n, D)
    c["params"].update(t.gen_params(rng, c))
    c["opts"] = []
    for _ in range(3):
        o = G.options(rng, t.accepted, 0.6)
        if "all_trees" in t.accepted and G.chance(rng, 0.25): o["all_trees"] = True
        c["opts"].append(o)
    if t.name in BOUNDED and "upper_bound" in t.accepted and G.chance(rng, 0.5):
        c["ub"] = G.pick(rng, [0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 10.0])
    return c


def shrinks(case):
    from ..engine import default_shrinks
    for i in range(len(case["opts"])):
        yield {**case, "opts": case["opts"][:i] + case["opts"][i + 1:]}
        for k in case["opts"][i]:
            yield {**case, "opts": case["opts"][:i] + [{a: b for a, b in case["opts"][i].items() if a != k}] + case["opts"][i + 1:]}
    if "ub" in case: yield {k: v for k, v in case.items() if k != "ub"}
    yield from default_shrinks(case)


def check(case):
    base = {k: v for k, v in case.items() if k not in ("opts", "ub")}
    t, est, tree = fit(base)
    lb = label_limits(base, t)
    found = [("defaults", tree)]
    for o in case["opts"]:
        _, e, tr = fit(base, **o)
        found.append((json.dumps(o, sort_keys=True), tr))
        lb += ["%s=%s" % kv for kv in sorted(o.items())]
    for what, tr in found:
        if tr is not None: size_ok(t, base, tr)
    for what, tr in found[1:]: agree(t, base, tree, tr, "the defaults", what)
    v = value(t, base, tree)
    if "ub" in case and tree is not None and v > 0:
        ub = v * case["ub"]
        if t.tol == Task_tol: ub = v + max(1, round(v * abs(case["ub"] - 1))) * (1 if case["ub"] > 1 else -1)
        if ub >= 0:
            for o in [{}] + case["opts"][:1]:
                _, e, tr = fit(base, upper_bound=ub, **o)
                s = T.slack(t, base, v)
                got = value(t, base, tr)
                if tr is not None and got > ub + s and o.get("use_upper_bound", True): raise Violation("above-bound", "upper bound %r, returned objective %r (options %r)" % (ub, got, o))
                if ub > v + 2 * s and tr is None: raise Violation("bound-hides-tree", "upper bound %r, a tree with %r exists, none returned (options %r)" % (ub, v, o))
                if tr is not None and abs(got - v) > s: raise Violation("bound-changes-value", "upper bound %r: objective %r instead of %r (options %r)" % (ub, got, v, o))
                lb.append("ub-above" if ub > v + 2 * s else "ub-below")
    return Result(tree is not None and O.nodes_of(tree) >= 2, lb, len(found))


Task_tol = T.Task.tol
