"""C16: the binary columns made from a table are the tests that their names state."""
import json, warnings
from ..common import *
from .. import table as B
import numpy as np
import pandas as pd

ID = "C16"
RULE = ("tables of 0/1, decimal, integer, text and coded columns (ties, constants, negatives, skew, unseen and extreme later values), data frames with any index and "
        "arrays, three strategies, all counts: every binary column is compared with its stated test on training and later rows (arrays: with some test of a raw "
        "column), counts with the limits, and a model trained on the table with one trained on the binary columns; non-trivial: at least one column is "
        "turned into a threshold or category test and both values occur in the later rows or the model has a branching node")
CASES = {"quick": 25000, "thorough": 200000}
CHUNK = 20
TASKS = ["accuracy", "accuracy", "cost-complex-accuracy", "f1-score", "regression", "cost-complex-regression", "instance-cost-sensitive",
         "survival-analysis", "group-fairness", "simple-linear-regression", "piecewise-linear-regression"]


def gen(rng, tier, i):
    n, m = G.ri(rng, 4, 50), G.ri(rng, 1, 12)
    form = G.pick(rng, ["frame", "frame", "frame", "array", "object"])
    task = G.pick(rng, TASKS)
    kinds = [k for k in B.KINDS if form != "array" or k != "cat"]
    tab = B.table(rng, n, m, kinds)
    if task == "group-fairness":                                 # the first column is the sensitive one
        tab["cols"][0][1] = "bin"
        for r in tab["R"] + tab["later"]: r[0] = G.ri(rng, 0, 1)
    t = T.ALL[task]
    rows = t.gen_rows(rng, n, 2)["rows"]
    rows.pop("X")
    rows["R"] = tab["R"]
    index = None
    if G.chance(rng, 0.4): index = [int(v) for v in (rng.permutation(n) if G.chance(rng, 0.5) else rng.integers(0, 5, n))]
    if index: rows["index"] = index
    c = {"rows": rows, "cols": tab["cols"], "later": tab["later"], "form": form, "task": task, "declare": G.chance(rng, 0.85),
         "strategy": G.pick(rng, ["quantile", "uniform", "tree"]), "n_thresholds": G.ri(rng, 1, 8), "n_categories": G.ri(rng, 2, 7),
         "params": {"max_depth": G.ri(rng, 1, 2)}}
    if form == "frame" and G.chance(rng, 0.3): c["perm"] = [int(v) for v in rng.permutation(len(tab["cols"]))]
    return c


def shrinks(case):
    from ..engine import default_shrinks
    if "perm" in case: yield {k: v for k, v in case.items() if k != "perm"}
    yield from default_shrinks(case)
    for a in range(len(case["later"])):
        if len(case["later"]) > 1: yield {**case, "later": case["later"][:a] + case["later"][a + 1:]}
    F = len(case["cols"])
    for j in range(F):
        if F == 1 or (j == 0 and case["task"] == "group-fairness"): continue
        c = json.loads(json.dumps(case))
        c.pop("perm", None)
        del c["cols"][j]
        for r in c["rows"]["R"] + c["later"]: del r[j]
        yield c
    for k in ("n_thresholds", "n_categories"):
        if case[k] > (1 if k == "n_thresholds" else 2): yield {**case, k: case[k] - 1}


def check(case):
    need_rows({"rows": {"X": case["rows"]["R"]}}, 2)
    from pystreed.binarizer import Binarizer
    cols, form, R, L = case["cols"], case["form"], case["rows"]["R"], case["later"]
    cats = B.categorical(case, form) if case["declare"] or form != "frame" else []
    kind = [k if k != "code" or case["declare"] or form != "frame" else "int" for _, k in cols]
    for j in range(len(cols)):                       # 0/1 columns stay 0/1 columns
        if kind[j] != "code" and B.is_binary([r[j] for r in R]) and not B.is_binary([r[j] for r in L]): raise Skip()
    X = B.data(case, R, form, index=case["rows"].get("index"))
    later = B.data(case, L, form, case.get("perm"))
    t = T.ALL[case["task"]]
    y = target(case["rows"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = Binarizer(case["strategy"], case["n_thresholds"], case["n_categories"], list(cats) or None)
        b.fit(X, y)
        Z, ZL = b.transform(X), b.transform(later)
    lb = [case["task"], "form:" + form, "strategy:" + case["strategy"]] + sorted({"kind:" + k for k in kind})
    names = list(Z.columns) if form == "frame" else [None] * Z.shape[1]
    if form == "frame" and list(ZL.columns) != names: raise Violation("columns", "training data has the columns %r, later data %r" % (names, list(ZL.columns)))
    if Z.shape[1] != ZL.shape[1] or len(Z) != len(R) or len(ZL) != len(L):
        raise Violation("shape", "binarised training data %r, later data %r, %d and %d rows given" % (Z.shape, ZL.shape, len(R), len(L)))
    M = [[v for v in r] for r in np.asarray(Z).tolist()] + [[v for v in r] for r in np.asarray(ZL).tolist()]
    for i, r in enumerate(M):
        if not B.is_binary(r): raise Violation("not-binary", "row %d becomes %r" % (i, r))
    rows, n = R + L, len(R)
    seen = [sorted({r[j] for r in R}, key=str) for j in range(len(cols))]
    owner, tests = [], 0
    for q, nm in enumerate(names):
        bits = [int(r[q]) for r in M]
        if form == "frame": j = named(case, nm, bits, rows, n, seen)
        else: j = some_test(cols, kind, seen, bits, rows, n)
        owner.append(j)
        tests += not (kind[j] == "bin" or B.is_binary(seen[j]))
    limit = [1 if B.is_binary(seen[j]) else 0 for j in range(len(cols))]
    for j in range(len(cols)):
        if kind[j] in ("num", "int"): limit[j] = max(limit[j], case["n_thresholds"])
        elif kind[j] in ("cat", "code"): limit[j] = limit[j] + case["n_categories"]
        if form == "frame" and owner.count(j) > limit[j]:
            raise Violation("too-many", "column %r becomes %d binary columns, limit %d: %r" % (cols[j][0], owner.count(j), limit[j], [names[q] for q in range(len(names)) if owner[q] == j]))
    if len(names) > sum(limit): raise Violation("too-many", "%d binary columns, limit %d" % (len(names), sum(limit)))
    for j in range(len(cols)):
        mine = [q for q in range(len(names)) if form != "frame" or owner[q] == j]
        if kind[j] != "code" and B.is_binary(seen[j]) and B.is_binary({r[j] for r in L}):
            if not any([int(r[q]) for r in M] == [int(r[j]) for r in rows] for q in mine):
                raise Violation("binary-lost", "the 0/1 column %r is not kept" % cols[j][0])
        few = len(seen[j]) <= (case["n_thresholds"] + 1 if kind[j] in ("num", "int") else case["n_categories"])
        if few and (kind[j] in ("cat", "code") or (kind[j] in ("num", "int") and case["strategy"] != "tree")):
            first = {}
            for i in range(n):
                sig = tuple(M[i][q] for q in mine)
                if first.setdefault(sig, R[i][j]) != R[i][j] and form == "frame":
                    raise Violation("merged", "values %r and %r of column %r are not told apart by %r" % (first[sig], R[i][j], cols[j][0], [names[q] for q in mine]))
        if few and kind[j] in ("num", "int") and case["strategy"] == "tree" and form == "frame" and not B.is_binary(seen[j]): separated(case, j, mine, M, y, seen[j])
        if kind[j] in ("cat", "code") and form == "frame":
            frequent(case, j, [names[q] for q in mine], seen[j])
            if len(seen[j]) > 2 and case["n_categories"] > 2:
                for i in range(n):
                    if sum(M[i][q] for q in mine) != 1: raise Violation("category-lost", "value %r of column %r satisfies %d of the tests %r" % (R[i][j], cols[j][0], sum(M[i][q] for q in mine), [names[q] for q in mine]))
        if case["strategy"] == "tree" and kind[j] in ("num", "int") and len(seen[j]) == 2 and form == "frame" and not mine:
            a, b = [sorted(y[i].item() for i in range(n) if R[i][j] == v) for v in seen[j]]
            if max(a) < min(b) or max(b) < min(a): raise Violation("merged", "column %r separates the labels %r from %r, but is dropped" % (cols[j][0], a, b))
    nt = tests > 0 and any(len({r[q] for r in M[n:]}) > 1 for q in range(len(names)))
    if len(names): nt = model(case, t, X, later, Z, ZL, cats, lb) or nt
    return Result(tests > 0 and nt, lb, 2 + len(names))


def separated(case, j, mine, M, y, seen):
    """With room for every value, the tree strategy merges only values with the same average label (or too close for its precision)."""
    u = sorted(seen)
    if any(b - a < 1e-5 * (1 + abs(a) + abs(b)) for a, b in zip(u, u[1:])): return
    groups = {}
    for i, r in enumerate(case["rows"]["R"]): groups.setdefault(tuple(M[i][q] for q in mine), []).append((r[j], y[i].item()))
    for g in groups.values():
        for a in sorted({v for v, _ in g})[:-1]:
            lo, hi = [np.mean([l for v, l in g if (v <= a) == side]) for side in (True, False)]
            if abs(lo - hi) > 1e-3 * (1 + abs(lo) + abs(hi)): raise Violation("merged", "column %r: values and labels %r are not told apart" % (case["cols"][j][0], sorted(set(g))))


def frequent(case, j, names, seen):
    """More categories than allowed: the most common ones have a column each, the others at most one column together."""
    col, vals = case["cols"][j][0], [r[j] for r in case["rows"]["R"]]
    if len(seen) <= case["n_categories"]: return
    single = [v for v in seen if any(nm == col + " == " + q for nm in names for q in B.quoted(v))]
    rest = [v for v in seen if v not in single]
    if len(single) != case["n_categories"] - 1: raise Violation("categories", "column %r with %d categories, limit %d, becomes %r" % (col, len(seen), case["n_categories"], names))
    if min(map(vals.count, single)) < max(map(vals.count, rest)):
        raise Violation("not-most-common", "column %r keeps %r, but not the more common of %r" % (col, [(v, vals.count(v)) for v in single], [(v, vals.count(v)) for v in rest]))


def target(rows):
    """What the tree strategy separates: labels, cheapest labels, or times."""
    if "C" in rows: return np.argmin(np.array(rows["C"], dtype=float), axis=1)
    return np.array(rows["y"] if "y" in rows else rows["T"])


def named(case, nm, bits, rows, n, seen):
    """The raw column that the name refers to; the bits have to be the stated test of it."""
    j = B.column_of(case, nm)
    if j is None: raise Violation("name", "binary column %r names no column" % nm)
    col = case["cols"][j][0]
    if nm.startswith(col + " in ["):
        S = {r[j] for r, b in zip(rows[:n], bits) if b}
        if not B.tokens(nm[len(col) + 5:-1], sorted(S, key=str)): raise Violation("list", "binary column %r holds for the values %r" % (nm, sorted(S, key=str)))
        want = [r[j] in S for r in rows]
    else:
        want = [B.holds(nm, col, r[j], seen[j]) for r in rows]
        if None in want: raise Violation("name", "binary column %r states no test" % nm)
    if nm.startswith(col + " <= "):
        lo, hi = min(r[j] for r in rows[:n]), max(r[j] for r in rows[:n])
        if not lo - 1e-6 * (1 + abs(lo)) <= float(nm[len(col) + 4:]) <= hi + 1e-6 * (1 + abs(hi)): raise Violation("threshold", "%r, but the column ranges from %r to %r" % (nm, lo, hi))
    for i, (w, b) in enumerate(zip(want, bits)):
        if bool(w) != bool(b): raise Violation("test", "%s row %d: %r is %r, binary column %r is %d" % ("training" if i < n else "later", i, col, rows[i][j], nm, b))
    return j


def some_test(cols, kind, seen, bits, rows, n):
    """A raw column of which the bits are a test (arrays carry no names)."""
    for j in range(len(cols)):
        v = [r[j] for r in rows]
        if B.is_binary(seen[j]) and bits == [int(x == 1) for x in v]: return j
        if kind[j] in ("num", "int"):
            lo, hi = [x for x, b in zip(v, bits) if b], [x for x, b in zip(v, bits) if not b]
            if not lo or not hi or max(lo) < min(hi): return j
        if kind[j] in ("cat", "code"):
            S = {x for x, b in zip(v[:n], bits) if b}
            if all((x in S) == bool(b) for x, b in zip(v, bits)): return j
    raise Violation("test", "a binary column is no test of any column: %r for the rows %r" % (bits, rows))


def model(case, t, X, later, Z, ZL, cats, lb):
    """Training on the table and on its binary columns give the same model."""
    p = {**case["params"], "continuous_binarize_strategy": case["strategy"], "n_thresholds": case["n_thresholds"], "n_categories": case["n_categories"]}
    if "continuous_binarize_strategy" not in t.all_args: return False
    if t.name == "group-fairness": p["sensitive_feature"] = 0
    rows = {k: v for k, v in case["rows"].items() if k not in ("R", "index")}
    rows["X"] = np.asarray(Z).astype(int).tolist()
    linear = t.name.endswith("linear-regression")
    sub = {**case, "rows": rows, "sens": 0, "params": {k: v for k, v in case["params"].items()}}
    args = t.fit_args(sub)
    A, C = t.make(p), t.make(p)
    lat = {"X": np.asarray(ZL).astype(int)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if linear:
            cont = [j for j, (nm, k) in enumerate(case["cols"]) if not B.is_binary([r[j] for r in case["rows"]["R"]])
                    and (case["cols"][j][0] if case["form"] == "frame" else j) not in cats and (k != "cat" or case["form"] != "frame")]
            if not cont: return False
            raw = [np.array([[float(r[j]) for j in cont] for r in R]) for R in (case["rows"]["R"], case["later"])]
            if case["form"] == "object": X = X.astype(object)
            A.fit(X, args[1], None, list(cats) or None)
            C.fit(args[0], args[1], raw[0])
        else:
            A.fit(X, *args[1:2], categorical=list(cats) or None)
            C.fit(*args)
        fits = [fitted(e) for e in (A, C)]
        if fits[0] != fits[1]: raise Violation("model", "feasible on the table: %r, on the binary columns: %r" % tuple(fits))
        if not fits[0]: return False
        ta, tc = t.tree(A), t.tree(C)
        if repr(ta) != repr(tc): raise Violation("model", "tree %r on the table, %r on the binary columns" % (ta, tc))
        if linear: pairs = [(A.predict(X), C.predict(args[0], raw[0])), (A.predict(later), C.predict(lat["X"], raw[1]))]
        elif "perm" in case and t.name == "group-fairness": pairs = [(A.predict(X), C.predict(args[0]))]
        else: pairs = [(A.predict(X), C.predict(args[0])), (A.predict(later), C.predict(lat["X"]))]
        for what, (a, c) in zip(("training", "later"), pairs):
            if np.asarray(a).tolist() != np.asarray(c).tolist():
                raise Violation("model-prediction", "%s rows: %r from the table, %r from the binary columns" % (what, np.asarray(a).tolist(), np.asarray(c).tolist()))
        sa = A.score(X, args[1]), C.score(*([args[0], args[1]] + ([raw[0]] if linear else [])))
        if repr(sa[0]) != repr(sa[1]): raise Violation("model-score", "score %r on the table, %r on the binary columns" % sa)
    lb.append("model")
    return ta[0] == "B"
