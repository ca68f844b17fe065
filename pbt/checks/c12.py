"""C12: equivalent data gives the same optimal value, and more budget never gives a worse one."""
import json
from ..common import *
import numpy as np

ID = "C12"
RULE = ("all 13 tasks, data sets beyond the reach of the exhaustive oracle; each case is fitted as it is and after three random transformations "
        "(rows or columns permuted, columns inverted, duplicated, constant columns added, classes renumbered, targets shifted or rescaled, the data "
        "repeated with a scaled leaf size) or changes of the budget (depth, nodes, leaf size, a column removed); the optimal values have to be equal, "
        "scaled, or ordered; non-trivial: the best tree has at least two branching nodes")
CASES = {"quick": 75000, "thorough": 400000}
CHUNK = 15
SIZES = {"f1-score": (50, 8, 3), "group-fairness": (30, 7, 3), "equality-of-opportunity": (30, 7, 3), "cost-sensitive": (100, 8, 3),
         "piecewise-linear-regression": (100, 6, 3), "simple-linear-regression": (120, 6, 3), "prescriptive-policy": (100, 8, 3),
         "instance-cost-sensitive": (100, 8, 3), "regression": (150, 9, 4), "cost-complex-regression": (150, 9, 4), "survival-analysis": (100, 8, 3)}
SAME = ["rows", "columns", "invert", "duplicate", "constant", "classes", "shift", "scale", "repeat"]
MORE = ["depth", "nodes", "leaf", "drop"]
CLASSES = ("accuracy", "cost-complex-accuracy", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy")
REAL = ("regression", "cost-complex-regression", "simple-linear-regression", "piecewise-linear-regression")


def kinds(t):
    k = ["rows", "invert", "depth", "leaf", "drop"]
    if t.name != "cost-sensitive": k += ["columns", "duplicate", "constant"]
    else: k += ["blocks"]; k.remove("drop")
    if t.name in CLASSES: k.append("classes")
    if t.name in REAL: k += ["shift", "scale"]
    if t.name not in ("survival-analysis", "simple-linear-regression", "piecewise-linear-regression"): k.append("repeat")
    if t.nodes: k.append("nodes")
    return k


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = SIZES.get(t.name, (200, 12, 4))
    n = G.ri(rng, 4, N) if G.chance(rng, 0.7) else G.ri(rng, 4, 30)
    F, D = (G.ri(rng, 1, F), D) if n <= 120 else (G.ri(rng, 1, min(F, 8)), D)
    if F > 8: D = 3
    one = {"C": 1} if t.name == "piecewise-linear-regression" else {}
    c = t.gen_rows(rng, n, F, **one)
    c["task"] = t.name
    c["params"] = t.gen_limits(rng, n, D)
    c["params"].update(t.gen_params(rng, c))
    if G.chance(rng, 0.3): c["params"].update(G.options(rng, t.accepted))
    c["moves"] = [[G.pick(rng, kinds(t)), G.ri(rng, 0, 2 ** 30)] for _ in range(3)]
    if G.chance(rng, 0.3): c["chain"] = True             # apply the equivalences one after another
    return c


def shrinks(case):
    from ..engine import default_shrinks
    for i in range(len(case["moves"])): yield {**case, "moves": case["moves"][:i] + case["moves"][i + 1:]}
    if "chain" in case: yield {k: v for k, v in case.items() if k != "chain"}
    yield from default_shrinks(case)


def move(t, case, kind, seed):
    """(transformed case, factor of the value, +1 value may only grow, -1 may only fall, 0 equal) or None."""
    rng = np.random.default_rng(seed)
    c = json.loads(json.dumps({k: v for k, v in case.items() if k not in ("moves", "chain")}))
    r, p = c["rows"], c["params"]
    n, F = len(r["X"]), len(r["X"][0])
    ri = lambda a, b: int(rng.integers(a, b + 1))
    if kind == "rows":
        o = [int(v) for v in rng.permutation(n)]
        for k in r: r[k] = [r[k][i] for i in o]
        return c, 1, 0
    if kind in ("columns", "blocks"):
        o = [int(v) for v in rng.permutation(F)]
        if kind == "blocks":
            sp = c["aux"]["specs"]
            q = [int(v) for v in rng.permutation(len(sp))]
            o, new = [], []
            for i in q:
                new.append(sp[i][:3] + [len(o), len(o) + sp[i][4] - sp[i][3]])
                o += list(range(sp[i][3], sp[i][4] + 1))
            c["aux"]["specs"] = new
            if sorted(o) != list(range(F)): return None
        r["X"] = [[x[i] for i in o] for x in r["X"]]
        if "sens" in c: c["sens"] = o.index(c["sens"])
        return c, 1, 0
    if kind == "invert":
        m = [int(v) for v in rng.integers(0, 2, F)]
        r["X"] = [[a ^ b for a, b in zip(x, m)] for x in r["X"]]
        return c, 1, 0
    if kind == "duplicate":
        j, inv = ri(0, F - 1), ri(0, 1)
        if "sens" in c and (j == c["sens"] or j in t.proxies(c)): return None
        for x in r["X"]: x.append(x[j] ^ inv)
        return c, 1, 0
    if kind == "constant":
        v = ri(0, 1)
        for x in r["X"]: x.append(v)
        return c, 1, 0
    if kind == "classes":
        if t.name == "prescriptive-policy":
            K = c["K"]
            o = [int(v) for v in rng.permutation(K)]           # class a becomes o[a]
            inv = [o.index(a) for a in range(K)]
            for x in r["T"]:
                x[0], x[3 + K] = float(o[int(x[0])]), float(o[int(x[3 + K])])
                x[3:3 + K] = [x[3 + a] for a in inv]
                x[4 + K:4 + 2 * K] = [x[4 + K + a] for a in inv]
            return c, 1, 0
        if t.name == "instance-cost-sensitive":
            if "C" not in r: return None
            K = len(r["C"][0])
            inv = [int(v) for v in rng.permutation(K)]
            r["C"] = [[x[a] for a in inv] for x in r["C"]]
            return c, 1, 0
        K = max(r["y"]) + 1 if "aux" not in c else len(c["aux"]["M"])
        o = [int(v) for v in rng.permutation(K)]
        inv = [o.index(a) for a in range(K)]
        r["y"] = [o[v] for v in r["y"]]
        if "aux" in c:
            if max(r["y"]) + 1 != max(case["rows"]["y"]) + 1: return None
            c["aux"]["M"] = [[c["aux"]["M"][a][b] for b in inv] for a in inv]
        return c, 1, 0
    if kind in ("shift", "scale"):
        sd = max(1e-3, float(np.std(r["y"])))
        if kind == "shift":
            d = float(np.round(rng.normal() * 3 * sd, 4))
            r["y"] = [round(v + d, 6) for v in r["y"]]
            return c, 1, 0
        s = float([2.0, 0.5, 10.0, -1.0, 3.0][ri(0, 4)])
        if t.name in ("simple-linear-regression", "piecewise-linear-regression") and p.get("lasso_penalty") and t.name[0] == "p": return None
        r["y"] = [v * s for v in r["y"]]
        return c, s * s, 0
    if kind == "repeat":
        k = ri(2, 3)
        for q in r: r[q] = [json.loads(json.dumps(v)) for v in r[q] for _ in range(k)]
        p["min_leaf_node_size"] = p.get("min_leaf_node_size", 1) * k
        return c, (1 if t.name == "f1-score" else k), 0
    if kind == "depth":
        d = p.get("max_depth", 3)
        if d == 0: return None
        # the node limit is an independent one: keep it when it is explicit
        p["max_depth"] = ri(0, d - 1)
        return c, 1, 1
    if kind == "nodes":
        k = t.limit(case)[1]
        if k == 0: return None
        p["max_num_nodes"] = ri(0, k - 1)
        return c, 1, 1
    if kind == "leaf":
        p["min_leaf_node_size"] = t.min_leaf(case) + ri(1, max(1, n // 4))
        return c, 1, 1
    if kind == "drop":
        if F < 2: return None
        j = ri(0, F - 1)
        if "sens" in c:
            if j == c["sens"]: return None
            if j < c["sens"]: c["sens"] -= 1
        r["X"] = [x[:j] + x[j + 1:] for x in r["X"]]
        return c, 1, 1
    raise KeyError(kind)


def fair_ok(t, case, tree):
    """A tree whose difference is clearly inside the limit and that tests no copy of the sensitive column."""
    return t.disc(tree, case) <= t.limit_disc(case) - 2e-4 and not set(t.proxies(case)) & set(O.features_of(tree))


def check(case):
    base = {k: v for k, v in case.items() if k not in ("moves", "chain")}
    if "sens" in base:
        t = T.ALL[base["task"]]
        if base["sens"] >= len(base["rows"]["X"][0]) or not all(t.relevant(base)): raise Skip()
    t, est, tree = fit(base)
    v = value(t, base, tree)
    lb, done, ev = [base["task"]], 0, 1
    cur, cv, ctree = base, v, tree
    for kind, seed in case["moves"]:
        m = move(t, cur, kind, seed)
        if m is None: continue
        c2, fac, sign = m
        if t.name == "instance-cost-sensitive" and hasattr(t, "valid") and not t.valid(c2): continue
        _, e2, tr2 = fit(c2)
        ev += 1
        v2 = value(t, c2, tr2)
        lb.append(kind)
        done += 1
        exp = cv * fac if cv < math.inf else cv
        what = "%s: value %r before, %r after (expected %s %r): %r / %r" % (kind, cv, v2, {0: "equal to", 1: "at least"}[sign], exp, ctree, tr2)
        if (exp == math.inf) != (v2 == math.inf) or exp < math.inf:
            s = 0.0
            if exp < math.inf and v2 < math.inf and "sens" not in base: s = max(T.slack(t, c2, min(exp, v2)), abs(fac) * T.slack(t, cur, min(exp, v2) / fac))
            if v2 < exp - s and not (exp == math.inf and v2 == math.inf):
                if "sens" not in base or fair_ok(t, c2, tr2): raise Violation("metamorphic", what)
            if sign == 0 and v2 > exp + s:
                if "sens" not in base or fair_ok(t, cur, ctree): raise Violation("metamorphic", what)
        if "chain" in case and sign == 0: cur, cv, ctree = c2, v2, tr2
    if not done: raise Skip()
    return Result(tree is not None and O.nodes_of(tree) >= 2, lb, ev)
