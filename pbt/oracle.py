"""Independent exhaustive dynamic programs over row bitmasks (no code shared with the solver)."""
import math

INF = math.inf


def masks(X):
    """Per column the bitmask of rows where it is 1."""
    n, F = len(X), (len(X[0]) if len(X) else 0)
    out = []
    for f in range(F):
        m = 0
        for i in range(n):
            if X[i][f]: m |= 1 << i
        out.append(m)
    return out


def cap(mask, d, k):
    return min(k, (1 << d) - 1, mask.bit_count() - 1)


def best(X, leaf, depth, nodes, branch=0.0, floor=0.0, skip=()):
    """Minimum over all trees of sum of leaf(mask) + branch * nodes; INF when no tree is allowed.
    leaf(mask) returns INF for a forbidden leaf.  floor is a lower bound on any subtree's value."""
    ones = [m for f, m in enumerate(masks(X)) if f not in skip]
    full = (1 << len(X)) - 1
    memo, leafs = {}, {}

    def lf(m):
        v = leafs.get(m)
        if v is None: v = leafs[m] = leaf(m)
        return v

    def rec(m, d, k):
        k = min(k, (1 << d) - 1, m.bit_count() - 1)
        v = lf(m)
        if k <= 0 or v <= floor: return v
        key = (m, d, k)
        r = memo.get(key)
        if r is not None: return r
        sub = (1 << (d - 1)) - 1
        seen = set()
        for o in ones:
            a = m & ~o
            b = m & o
            if not a or not b: continue
            if a > b: a, b = b, a
            if a in seen: continue
            seen.add(a)
            if k >= 2 * sub + 1:
                c = branch + rec(a, d - 1, sub) + rec(b, d - 1, sub)
                if c < v: v = c
            else:
                for ka in range(max(0, k - 1 - sub), min(sub, k - 1) + 1):
                    c = branch + rec(a, d - 1, ka) + rec(b, d - 1, k - 1 - ka)
                    if c < v: v = c
        memo[key] = v
        return v

    return rec(full, depth, nodes)


def pareto(points):
    pts = sorted(points)
    out, bestb = [], INF
    for a, b in pts:
        if b < bestb:
            out.append((a, b))
            bestb = b
    return out


def fronts(X, leafpts, depth, nodes):
    """Non-dominated (a, b) sums over all trees; leafpts(mask) lists the points of a leaf (empty: forbidden)."""
    ones = masks(X)
    memo, leafs = {}, {}

    def rec(m, d, k):
        k = cap(m, d, k)
        l = leafs.get(m)
        if l is None: l = leafs[m] = leafpts(m)
        if k <= 0: return l
        key = (m, d, k)
        if key in memo: return memo[key]
        res = set(l)
        sub = (1 << (d - 1)) - 1
        seen = set()
        for o in ones:
            a, b = m & ~o, m & o
            if not a or not b: continue
            if a > b: a, b = b, a
            if a in seen: continue
            seen.add(a)
            for ka in range(max(0, k - 1 - sub), min(sub, k - 1) + 1):
                A, B = rec(a, d - 1, ka), rec(b, d - 1, k - 1 - ka)
                if len(A) == 0 or len(B) == 0: continue
                res.update((p[0] + q[0], p[1] + q[1]) for p in A for q in B)
            if len(res) > 4000: res = set(pareto(res))
        r = memo[key] = pareto(res)
        return r

    return rec((1 << len(X)) - 1, depth, nodes)


def tables(X, leaftab, depth, nodes, skip=()):
    """All reachable keys with their minimal value: leaf tables {key: value} are added over leaves."""
    ones = [m for f, m in enumerate(masks(X)) if f not in skip]
    memo, leafs = {}, {}

    def rec(m, d, k):
        k = cap(m, d, k)
        l = leafs.get(m)
        if l is None: l = leafs[m] = leaftab(m)
        if k <= 0: return l
        key = (m, d, k)
        if key in memo: return memo[key]
        res = dict(l)
        sub = (1 << (d - 1)) - 1
        seen = set()
        for o in ones:
            a, b = m & ~o, m & o
            if not a or not b: continue
            if a > b: a, b = b, a
            if a in seen: continue
            seen.add(a)
            for ka in range(max(0, k - 1 - sub), min(sub, k - 1) + 1):
                A, B = rec(a, d - 1, ka), rec(b, d - 1, k - 1 - ka)
                for x, u in A.items():
                    for y, w in B.items():
                        z, s = x + y, u + w
                        t = res.get(z)
                        if t is None or s < t: res[z] = s
        memo[key] = res
        return res

    return rec((1 << len(X)) - 1, depth, nodes)


def best_path(X, leaf, depth, nodes, branch, ctx0, step, floor=0.0):
    """As best(), with branch(f, count, ctx) charged per branching node and ctx updated by step(f, ctx)
    for both children (ctx must be hashable)."""
    ones = masks(X)
    memo, leafs = {}, {}

    def rec(m, ctx, d, k):
        k = cap(m, d, k)
        v = leafs.get(m)
        if v is None: v = leafs[m] = leaf(m)
        if k <= 0 or v <= floor: return v
        key = (m, ctx, d, k)
        if key in memo: return memo[key]
        sub = (1 << (d - 1)) - 1
        for f, o in enumerate(ones):
            a, b = m & ~o, m & o
            if not a or not b: continue
            bc = branch(f, m.bit_count(), ctx)
            if bc >= v: continue
            c2 = step(f, ctx)
            for ka in range(max(0, k - 1 - sub), min(sub, k - 1) + 1):
                c = bc + rec(a, c2, d - 1, ka) + rec(b, c2, d - 1, k - 1 - ka)
                if c < v: v = c
        memo[key] = v
        return v

    return rec((1 << len(X)) - 1, ctx0, depth, nodes)


# ---------------------------------------------------------------- trees

def tree_of(node):
    """The package's tree as nested ("L", label) / ("B", feature, left, right); left is feature == 0."""
    if node.is_leaf_node(): return ("L", node.label)
    return ("B", int(node.feature), tree_of(node.left_child), tree_of(node.right_child))


def depth_of(t):
    return 0 if t[0] == "L" else 1 + max(depth_of(t[2]), depth_of(t[3]))


def nodes_of(t):
    return 0 if t[0] == "L" else 1 + nodes_of(t[2]) + nodes_of(t[3])


def leaf_of(t, x):
    """(leaf, path) for one instance; path lists the tested features in order."""
    path = []
    while t[0] == "B":
        path.append(t[1])
        t = t[3] if x[t[1]] else t[2]
    return t, path


def partition(t, X):
    """[(leaf, row indices, path)] for all leaves, including empty ones."""
    out = []

    def rec(u, idx, path):
        if u[0] == "L":
            out.append((u, idx, path))
            return
        rec(u[2], [i for i in idx if not X[i][u[1]]], path + [u[1]])
        rec(u[3], [i for i in idx if X[i][u[1]]], path + [u[1]])

    rec(t, list(range(len(X))), [])
    return out


def features_of(t):
    return set() if t[0] == "L" else {t[1]} | features_of(t[2]) | features_of(t[3])
