"""C08: survival trees minimise the likelihood loss; leaf values are the hazard multipliers and give the predicted curves."""
import math
import warnings
import numpy as np
from ..common import *

ID = "C08"
RULE = ("random 0/1 data with censored times (ties, integer times, heavy censoring; n<=40, 1..7 columns; one in eight with 65..160 rows or 8..16 columns), compared with an exhaustive program "
        "over the loss and a direct computation of hazards, curves and risk scores; non-trivial: the optimal tree beats a single leaf by more than the tolerance")
CASES = {"quick": 120000, "thorough": 1000000}
CHUNK = 40


def gen(rng, tier, i):
    t = T.ALL["survival-analysis"]
    n = G.ri(rng, 2, 12) if G.chance(rng, 0.25) else G.ri(rng, 8, 40)
    F = G.ri(rng, 1, 7)
    return t.case(rng, *G.stretch(rng, n, F, 3, (65, 160, 5, 3), (8, 16, 2), deep=4))


def curves(t, case, est, tree, H):
    r = case["rows"]
    rows = [r["X"][0], r["X"][-1], [1 - v for v in r["X"][0]]]
    times = sorted(set(r["T"]))
    base = t.baseline(r["T"], r["E"])
    h0 = [t.at(base, v) for v in times]
    ev = [any(a == v and e for a, e in zip(r["T"], r["E"])) for v in times]
    Xq = np.array(rows, dtype=int)
    chf = np.asarray(est.predict_cumulative_hazard_function(Xq, return_array=True))
    sf = np.asarray(est.predict_survival_function(Xq, return_array=True))
    fc, fs, risk = est.predict_cumulative_hazard_function(Xq), est.predict_survival_function(Xq), est.predict(Xq)
    if chf.shape != (3, len(times)) or sf.shape != chf.shape or len(fc) != 3 or len(fs) != 3 or len(risk) != 3:
        raise Violation("curve-shape", "curves %r and %r for 3 rows and %d times" % (chf.shape, sf.shape, len(times)))
    for i, x in enumerate(rows):
        th = O.leaf_of(tree, x)[0][1]
        for j, v in enumerate(times):
            e = th * h0[j]
            if not T.close(chf[i, j], e, 1e-6): raise Violation("hazard", "cumulative hazard at %r is %r, leaf and baseline give %r" % (v, chf[i, j], e))
            if abs(sf[i, j] - math.exp(-e)) > 1e-6 or not 0 <= sf[i, j] <= 1:
                raise Violation("survival", "survival at %r is %r, leaf and baseline give %r" % (v, sf[i, j], math.exp(-e)))
            if j and sf[i, j] > sf[i, j - 1]: raise Violation("survival", "survival rises at %r" % v)
            if abs(fc[i](v) - chf[i, j]) > 1e-9 or abs(fs[i](v) - sf[i, j]) > 1e-9: raise Violation("curve-function", "function and array differ at %r" % v)
        e = sum(th * h for h, k in zip(h0, ev) if k)
        if not T.close(risk[i], e, 1e-6): raise Violation("risk", "risk score %r, hazards at the event times sum to %r" % (risk[i], e))


def check(case):
    t, est, tree = fit(case)
    opt = optimal(t, case, est, tree)
    lb = label_limits(case, t)
    if tree is None: return Result(True, lb + ["infeasible"])
    H = t.hazards(case)
    for l, idx, _ in O.partition(tree, case["rows"]["X"]):
        th = t.leaf_theta(case, idx, H)
        if not T.close(l[1], th, 1e-6): raise Violation("leaf-theta", "leaf value %r, its instances give %r" % (l[1], th))
    score_ok(t, case, est, tree)
    curves(t, case, est, tree, H)
    one = t.optimum({**case, "params": {**case["params"], "max_depth": 0, "min_leaf_node_size": 1}})
    return Result(opt < one - T.slack(t, case, opt), lb)
