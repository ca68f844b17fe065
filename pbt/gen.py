"""Generators of data sets, limits and search options.  All randomness comes from the given rng."""
import numpy as np


def chance(rng, p):
    return bool(rng.random() < p)


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def ri(rng, lo, hi):
    """Integer in [lo, hi]."""
    return int(rng.integers(lo, hi + 1))


def binary_matrix(rng, n, F):
    """0/1 matrix in one of several styles, then sprinkled with duplicates, complements, constants and
    repeated rows."""
    style = pick(rng, ["iid", "probs", "chain", "sparse", "latent", "onehot"])
    if style == "iid":
        X = rng.integers(0, 2, (n, F))
    elif style == "probs":
        X = (rng.random((n, F)) < rng.uniform(0.1, 0.9, F)).astype(int)
    elif style == "sparse":
        X = (rng.random((n, F)) < rng.uniform(0.02, 0.2)).astype(int)
        if chance(rng, 0.3): X = 1 - X
    elif style == "chain":
        k = ri(rng, 1, max(1, F // 2))
        Z = rng.normal(size=(n, k))
        if chance(rng, 0.3): Z = np.round(Z)
        X = np.stack([(Z[:, j % k] <= np.quantile(Z[:, j % k], rng.uniform(0.05, 0.95))).astype(int) for j in range(F)], axis=1)
    elif style == "latent":
        k = ri(rng, 1, 3)
        Z = rng.integers(0, 2, (n, k))
        X = np.stack([Z[:, ri(rng, 0, k - 1)] ^ (rng.random(n) < rng.uniform(0, 0.3)) for _ in range(F)], axis=1).astype(int)
    else:
        X = np.zeros((n, F), int)
        a = 0
        while a < F:
            w = min(F - a, ri(rng, 2, 4))
            c = rng.integers(0, w + 1, n)
            for j in range(w): X[:, a + j] = c == j
            a += w
    X = np.array(X, dtype=int)
    for j in range(F):
        if F > 1 and chance(rng, 0.06): X[:, j] = X[:, ri(rng, 0, F - 1)]
        elif F > 1 and chance(rng, 0.06): X[:, j] = 1 - X[:, ri(rng, 0, F - 1)]
        elif chance(rng, 0.03): X[:, j] = ri(rng, 0, 1)
        elif F > 1 and chance(rng, 0.05):           # differs from another column in one or two rows
            X[:, j] = X[:, ri(rng, 0, F - 1)]
            for _ in range(ri(rng, 1, 2)): X[ri(rng, 0, n - 1), j] ^= 1
    if n > 3 and chance(rng, 0.35):                 # many identical rows
        m = ri(rng, 1, max(1, n - 1))
        X = X[:m][rng.integers(0, m, n)]
    if chance(rng, 0.15): X = X[np.lexsort(X.T)]
    return X


def random_tree(rng, F, depth, leaf):
    """Nested ("L", v) / ("B", f, left, right)."""
    if depth == 0 or chance(rng, 0.15): return ("L", leaf())
    return ("B", ri(rng, 0, F - 1), random_tree(rng, F, depth - 1, leaf), random_tree(rng, F, depth - 1, leaf))


def apply_tree(t, x):
    while t[0] == "B": t = t[3] if x[t[1]] else t[2]
    return t[1]


def labels(rng, X, K):
    n, F = X.shape
    style = pick(rng, ["tree", "iid", "xor", "skew", "perrow", "tree", "lin"])
    if style == "tree":
        t = random_tree(rng, F, ri(rng, 1, 4), lambda: ri(rng, 0, K - 1))
        y = np.array([apply_tree(t, x) for x in X])
    elif style == "xor":
        cols = rng.choice(F, size=min(F, ri(rng, 1, 3)), replace=False)
        y = X[:, cols].sum(axis=1) % K
    elif style == "skew":
        y = (rng.random(n) < rng.uniform(0.02, 0.2)).astype(int) * ri(rng, 1, max(1, K - 1))
    elif style == "perrow":                          # label is a function of the row: perfectly separable
        m = {}
        y = np.array([m.setdefault(tuple(x), ri(rng, 0, K - 1)) for x in X.tolist()])
    elif style == "lin":
        w = rng.normal(size=F)
        s = X @ w
        y = np.clip(((np.argsort(np.argsort(s)) * K) // max(1, n)), 0, K - 1)
    else:
        y = rng.integers(0, K, n)
    y = np.array(y, int)
    noise = pick(rng, [0.0, 0.0, 0.05, 0.15, 0.3])
    flip = rng.random(n) < noise
    y[flip] = rng.integers(0, K, int(flip.sum()))
    return np.clip(y, 0, max(0, K - 1))


def depth_limit(rng, hi):
    return int(pick(rng, list(range(hi + 1)), p=_dp(hi)))


def _dp(hi):
    w = np.array([0.4, 1.0, 2.0, 3.0, 3.0, 2.0] + [2.0] * 20)[:hi + 1]
    return w / w.sum()


def stretch(rng, n, F, d, tall=(65, 260, 6, 3), wide=(10, 24, 2), vast=None, deep=None):
    """Now and then many rows and few columns, many columns and a small depth, or deep trees over few columns, instead of the given (n, F, d)."""
    r = rng.random()
    if deep and 0.12 <= r < 0.16: return ri(rng, 6, 30), ri(rng, 3, deep), pick(rng, [5, 5, 6, 8])
    if vast and r > 0.993: return n, ri(rng, *vast), 2
    if r < 0.06: return ri(rng, tall[0], tall[1]), ri(rng, min(2, tall[2]), tall[2]), tall[3]
    if r < 0.12: return n, ri(rng, wide[0], wide[1]), wide[2]
    return n, F, d


def limits(rng, n, max_depth, nodes=True, leaf=True):
    d = depth_limit(rng, max_depth)
    p = {"max_depth": d}
    full = 2 ** d - 1
    if nodes and chance(rng, 0.5):
        p["max_num_nodes"] = ri(rng, 0, full if d <= 4 else 15) if chance(rng, 0.9) else full + ri(rng, 1, 5)
    if leaf and chance(rng, 0.45):
        p["min_leaf_node_size"] = pick(rng, [1, 2, 2, 3, 4, 5, max(1, n // 8), max(1, n // 4), max(1, n // 2), n, n + 1],
                                       p=[.05, .2, .1, .15, .1, .1, .1, .1, .06, .02, .02])
    return p


TOGGLES = ["use_branch_caching", "use_dataset_caching", "use_terminal_solver", "use_similarity_lower_bound",
           "use_upper_bound", "use_lower_bound", "use_task_lower_bound"]


def options(rng, accepted, p=0.5):
    """Random search options out of those the estimator accepts."""
    o = {}
    u = rng.random()
    if u < 0.25: return o
    if u < 0.4 and "use_terminal_solver" in accepted:
        # every bound and cache of the general search, without the solver that replaces it for small trees
        o["use_terminal_solver"] = False
        if "feature_ordering" in accepted and chance(rng, 0.5): o["feature_ordering"] = "in-order"
        return o
    for t in TOGGLES:
        if t in accepted and chance(rng, p): o[t] = bool(rng.integers(0, 2))
    if "feature_ordering" in accepted and chance(rng, 0.4): o["feature_ordering"] = pick(rng, ["in-order", "gini"])
    if "regression_lower_bound" in accepted and chance(rng, 0.5): o["regression_lower_bound"] = pick(rng, ["equivalent", "kmeans"])
    return o
