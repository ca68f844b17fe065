"""One adapter per optimisation task: data generation, calls into the package, and the definition of the
objective, the predictions and the score in terms of the returned tree (independent of the solver)."""
import inspect, math, tempfile, warnings
import numpy as np
import pystreed as ps
from . import gen as G, oracle as O
from .engine import Skip

BASE_OPTS = {"feature_ordering", "use_branch_caching", "use_dataset_caching", "use_terminal_solver",
             "use_similarity_lower_bound", "use_upper_bound", "use_lower_bound", "use_task_lower_bound",
             "regression_lower_bound", "all_trees", "upper_bound"}


def close(a, b, tol):
    if a == b: return True
    if a is None or b is None: return False
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Task:
    name = None
    cls = None
    tol = 1e-9                 # relative tolerance on the objective
    fixed = {}                 # constructor arguments that select the task
    size = (60, 9, 4)          # n, F, depth for the oracle
    has_oracle = True
    nodes = True               # a node limit below the full tree may be combined with the task
    maximise_score = None

    def __init__(self):
        self.accepted = set(inspect.signature(self.cls.__init__).parameters) & BASE_OPTS
        self.all_args = set(inspect.signature(self.cls.__init__).parameters) - {"self"}

    # ---- generation
    def gen_rows(self, rng, n, F, **kw):
        raise NotImplementedError

    def gen_params(self, rng, case):
        """Task parameters beyond limits and options."""
        return {}

    def gen_limits(self, rng, n, depth):
        return G.limits(rng, n, depth, nodes=self.nodes)

    def case(self, rng, n, F, depth, opts=True):
        c = self.gen_rows(rng, n, F)
        c["task"] = self.name
        c["params"] = self.gen_limits(rng, n, depth)
        c["params"].update(self.gen_params(rng, c))
        if opts: c["params"].update(G.options(rng, self.accepted))
        return c

    # ---- calls
    def make(self, params):
        return self.cls(**{**self.fixed, **params})

    def X(self, rows):
        return np.array(rows["X"], dtype=int).reshape(len(rows["X"]), -1)

    def fit_args(self, case):
        return [self.X(case["rows"]), np.array(case["rows"]["y"])]

    def fit(self, est, case):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = est.fit(*self.fit_args(case))
        self.last_warnings = [str(x.message) for x in w]
        return r

    def predict(self, est, case):
        return est.predict(self.X(case["rows"]))

    def score(self, est, case):
        return est.score(*self.score_args(case))

    def score_args(self, case):
        return [self.X(case["rows"]), np.array(case["rows"]["y"])]

    def qlen(self, est, case):
        return est.get_question_length(*self.score_args(case))

    def tree(self, est):
        return O.tree_of(est.tree_)

    # ---- limits as the user stated them
    def limit(self, case):
        p = case["params"]
        d = p.get("max_depth", 3)
        full = 2 ** d - 1
        k = p.get("max_num_nodes")
        return d, full if k is None else min(k, full), self.min_leaf(case)

    def min_leaf(self, case):
        return case["params"].get("min_leaf_node_size", 1)

    # ---- meaning
    def leaf_values(self, tree, case):
        """Predicted value for every row."""
        return [O.leaf_of(tree, x)[0][1] for x in case["rows"]["X"]]

    def objective(self, tree, case):
        """The minimised training objective of the tree."""
        raise NotImplementedError

    def optimum(self, case):
        """Smallest objective over all trees within the limits (INF: no such tree)."""
        raise NotImplementedError

    def score_of(self, tree, case, train=None):
        """Expected score of the tree on case's rows; train: the case it was fitted on."""
        raise NotImplementedError

    def slack(self, opt):
        return self.tol * max(1.0, abs(opt))


# ---------------------------------------------------------------- classification

class Accuracy(Task):
    name, cls, fixed = "accuracy", ps.STreeDClassifier, {"optimization_task": "accuracy"}
    maximise_score = True

    def gen_rows(self, rng, n, F, K=None):
        X = G.binary_matrix(rng, n, F)
        K = K or G.pick(rng, [2, 2, 2, 3, 3, 4, 6])
        return {"rows": {"X": X, "y": G.labels(rng, X, K)}}

    def leaf_cost(self, case):
        y, K = case["rows"]["y"], max(case["rows"]["y"]) + 1
        cls = [sum(1 << i for i, v in enumerate(y) if v == k) for k in range(K)]
        ml = self.min_leaf(case)

        def leaf(m):
            n = m.bit_count()
            if n < ml: return math.inf
            return n - max((m & c).bit_count() for c in cls)
        return leaf

    def objective(self, tree, case):
        return sum(p != t for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.leaf_cost(case), d, k)

    def score_of(self, tree, case, train=None):
        n = len(case["rows"]["y"])
        return (n - sum(p != t for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))) / n


class CostComplexAccuracy(Accuracy):
    name, fixed = "cost-complex-accuracy", {"optimization_task": "cost-complex-accuracy"}
    nodes = False
    tol = 1e-3

    def gen_params(self, rng, case):
        n = len(case["rows"]["X"])
        return {"cost_complexity": min(1.0, G.pick(rng, [0.0, 0.01, round(float(rng.uniform(0, 0.05)), 4), round(float(rng.uniform(0, 0.3)), 4),
                                                         G.ri(rng, 1, 3) / n, (G.ri(rng, 0, 2) + 0.5) / n, 1.0],
                                                   p=[.06, .2, .24, .2, .1, .15, .05]))}

    def cc(self, case):
        return case["params"].get("cost_complexity", 0.01) * len(case["rows"]["y"])

    def objective(self, tree, case):
        return super().objective(tree, case) + O.nodes_of(tree) * self.cc(case)

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.leaf_cost(case), d, k, branch=self.cc(case))


class F1(Accuracy):
    name, fixed = "f1-score", {"optimization_task": "f1-score"}
    size = (40, 7, 3)

    def __init__(self):
        super().__init__()
        self.accepted -= {"upper_bound"}

    def gen_rows(self, rng, n, F, K=None):
        c = super().gen_rows(rng, n, F, 2)
        y = np.array(c["rows"]["y"])
        if y.max() == 0: y[G.ri(rng, 0, n - 1)] = 1     # the F1-score needs a positive instance
        c["rows"]["y"] = y
        return c

    @staticmethod
    def f1(P, fp, fn):
        tp = P - fn
        return tp / (tp + 0.5 * (fp + fn))

    def counts(self, tree, case):
        p, y = self.leaf_values(tree, case), case["rows"]["y"]
        return sum(y), sum(a == 1 and b == 0 for a, b in zip(p, y)), sum(a == 0 and b == 1 for a, b in zip(p, y))

    def objective(self, tree, case):
        return -self.f1(*self.counts(tree, case))

    def optimum(self, case):
        d, k, ml = self.limit(case)
        y = case["rows"]["y"]
        if sum(y) == 0: raise Skip()
        pos = sum(1 << i for i, v in enumerate(y) if v)

        def pts(m):
            n, p = m.bit_count(), (m & pos).bit_count()
            return [] if n < ml else O.pareto([(n - p, 0), (0, p)])
        fr = O.fronts(case["rows"]["X"], pts, d, k)
        if len(fr) == 0: return math.inf
        return min(-self.f1(sum(y), a, b) for a, b in fr)

    def score_of(self, tree, case, train=None):
        P, fp, fn = self.counts(tree, case)
        if P == 0: return None
        return self.f1(P, fp, fn)


class Fairness(Accuracy):
    cls = ps.STreeDGroupFairnessClassifier
    size = (22, 6, 3)

    def __init__(self, name):
        self.name, self.fixed = name, {"optimization_task": name}
        super().__init__()

    def gen_rows(self, rng, n, F, K=None):
        F = max(2, F)
        X = G.binary_matrix(rng, n, F)
        s = G.ri(rng, 0, F - 1)
        y = G.labels(rng, X, 2)
        if G.chance(rng, 0.4):                            # sensitive attribute correlated with the label
            X[:, s] = y ^ (rng.random(n) < rng.uniform(0, 0.5))
        X[0, s], X[1 % n, s] = 0, 1
        y[0] = y[1 % n] = 1                               # both groups have positive instances
        return {"rows": {"X": X, "y": y}, "sens": s, "cols_free": False}

    def gen_params(self, rng, case):
        return {"discrimination_limit": G.pick(rng, [0.0, 0.01, 0.05, 0.1, 0.2, 0.5, 1.0, round(float(rng.random()) * 0.4, 3)],
                                               p=[.1, .1, .2, .15, .15, .05, .05, .2])}

    def make(self, params):
        return super().make(params)

    def fit(self, est, case):
        est.sensitive_feature = case["sens"]
        return super().fit(est, case)

    def orig(self, j, s):
        """Original column of the j-th column after the sensitive one is moved to the front."""
        return s if j == 0 else (j - 1 if j - 1 < s else j)

    def tree(self, est, s=None):
        s = est.sensitive_feature if s is None else s

        def m(t):
            return t if t[0] == "L" else ("B", self.orig(t[1], s), m(t[2]), m(t[3]))
        return m(super().tree(est))

    def limit_disc(self, case):
        return case["params"].get("discrimination_limit", 0.05)

    def relevant(self, case):
        X, y, s = case["rows"]["X"], case["rows"]["y"], case["sens"]
        use = [i for i in range(len(y)) if self.name == "group-fairness" or y[i] == 1]
        return [i for i in use if not X[i][s]], [i for i in use if X[i][s]]

    def disc(self, tree, case):
        g0, g1 = self.relevant(case)
        if not g0 or not g1: raise Skip()
        p = self.leaf_values(tree, case)
        return abs(sum(p[i] for i in g0) / len(g0) - sum(p[i] for i in g1) / len(g1))

    def proxies(self, case):
        """Columns that are copies (or complements) of the sensitive one: testing one is testing the sensitive feature."""
        X, s = case["rows"]["X"], case["sens"]
        return [f for f in range(len(X[0])) if f != s and len({r[f] ^ r[s] for r in X}) == 1]

    def table(self, case, skip=()):
        """{scaled difference: fewest errors} over all trees within the size limits that do not test the sensitive feature."""
        d, k, ml = self.limit(case)
        X, y = case["rows"]["X"], case["rows"]["y"]
        g0, g1 = self.relevant(case)
        if not g0 or not g1: raise Skip()
        m0, m1, pos = sum(1 << i for i in g0), sum(1 << i for i in g1), sum(1 << i for i, v in enumerate(y) if v)
        n0, n1 = len(g0), len(g1)

        def tab(m):
            n = m.bit_count()
            if n < ml: return {}
            p = (m & pos).bit_count()
            t = {0: p}
            z = (m & m0).bit_count() * n1 - (m & m1).bit_count() * n0
            t[z] = min(t.get(z, n), n - p)
            return t
        return O.tables(X, tab, d, k, skip=(case["sens"],) + tuple(skip)), n0 * n1

    def bounds(self, case, eps=2e-4):
        """(fewest errors clearly inside the limit, fewest errors inside the limit plus eps).

        A tree may test a copy of the sensitive feature, but it does not have to."""
        t, den = self.table(case)
        lim = self.limit_disc(case)
        same = self.proxies(case)
        strict = self.table(case, same)[0] if same else t
        inner = [v for z, v in strict.items() if abs(z) / den <= lim - eps]
        outer = [v for z, v in t.items() if abs(z) / den <= lim + eps]
        return min(inner, default=math.inf), min(outer, default=math.inf)

    def objective(self, tree, case):
        return sum(p != t for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))

    def optimum(self, case):
        return self.bounds(case)[0]

    def score_of(self, tree, case, train=None):
        if not all(self.relevant(case)): return None          # no difference is defined for an empty group
        if abs(self.disc(tree, case) - self.limit_disc(train or case)) < 2e-4: return None
        if self.disc(tree, case) > self.limit_disc(train or case): return 0.0
        n = len(case["rows"]["y"])
        return (n - self.objective(tree, case)) / n


# ---------------------------------------------------------------- costs

def write_costs(f, aux, blank=0):
    """The costs in the package's text format, with some blank lines."""
    for r in aux["M"]: f.write(" ".join(repr(float(v)) for v in r) + "\n")
    if blank > 1: f.write("\n")
    f.write("Attribute-name test-cost discount group binarize-begin binarize-end\n")
    for i, s in enumerate(aux["specs"]): f.write("a%d %r %r %s %d %d\n" % (i, float(s[0]), float(s[1]), s[2], s[3], s[4]))
    f.write("\n" * blank)


def write_costs_bad(path, K, F, how):
    if how == "missing": return
    rows = [" ".join("0" if i == j else "1" for j in range(K)) for i in range(K)]
    if how == "word": rows[-1] = "x" + rows[-1]
    if how == "empty": rows = []
    else: rows += ["name test discount group begin end", "a 1 1 g 0" + ("" if how == "short" else " %d" % (F - 1))]
    with open(path, "w") as f: f.write("".join(r + "\n" for r in rows))


class CostSensitive(Accuracy):
    name, cls, fixed = "cost-sensitive", ps.STreeDCostSensitiveClassifier, {}
    size = (40, 7, 3)
    tol = 1e-4
    maximise_score = False

    def gen_rows(self, rng, n, F, K=None):
        c = super().gen_rows(rng, n, F, K or G.pick(rng, [2, 2, 2, 3, 3, 4, 6]))
        K = max(2, int(max(c["rows"]["y"])) + 1)
        scale = G.pick(rng, [1.0, 10.0, 100.0])
        M = [[0 if i == j else (G.ri(rng, 0, 10) * scale if G.chance(rng, 0.7) else round(float(rng.random()) * 10 * scale, 2))
              for j in range(K)] for i in range(K)]
        if G.chance(rng, 0.15):                           # the right label is not free either
            for i in range(K): M[i][i] = round(float(rng.random()) * 4 * scale, 1) if G.chance(rng, 0.6) else 0
        specs, a, g = [], 0, 0
        tc = G.pick(rng, [0.0, 0.1, 0.5, 1.0, 3.0]) * scale
        while a < F:
            w = min(F - a, G.pick(rng, [1, 1, 1, 2, 3]))
            cost = round(float(rng.random()) * tc, 3) if G.chance(rng, 0.85) else 0.0
            disc = round(cost * float(rng.random()), 3) if G.chance(rng, 0.7) else cost
            name = "g%d" % (G.ri(rng, 0, 2) if G.chance(rng, 0.6) else 10 + g)
            specs.append([cost, disc, name, a, a + w - 1])
            a += w
            g += 1
        c["aux"] = {"M": M, "specs": specs}
        if G.chance(rng, 0.1): c["aux"]["file"] = G.ri(rng, 0, 2)
        c["cols_free"] = False
        return c

    def spec(self, case):
        from pystreed.data import CostSpecifier, FeatureCostSpecifier
        a = case["aux"]
        if "file" in a:
            with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
                write_costs(f, a, a["file"])
                f.flush()
                return CostSpecifier(f.name, len(a["M"]))
        return CostSpecifier([list(map(float, r)) for r in a["M"]], [FeatureCostSpecifier(s[0], s[1], s[2], s[3], s[4]) for s in a["specs"]])

    def fit_args(self, case):
        return super().fit_args(case) + [self.spec(case)]

    def owner(self, case):
        o = {}
        for i, s in enumerate(case["aux"]["specs"]):
            for f in range(s[3], s[4] + 1): o[f] = i
        return o

    def test_cost(self, case, path):
        """Cost of the tests on a path for one instance."""
        o, sp = self.owner(case), case["aux"]["specs"]
        seen, groups, c = set(), set(), 0.0
        for f in path:
            i = o[f]
            if i not in seen: c += sp[i][1] if sp[i][2] in groups else sp[i][0]
            seen.add(i)
            groups.add(sp[i][2])
        return c

    def total(self, tree, case):
        M, y, c = case["aux"]["M"], case["rows"]["y"], 0.0
        for x, t in zip(case["rows"]["X"], y):
            l, path = O.leaf_of(tree, x)
            c += M[t][l[1]] + self.test_cost(case, path)
        return c

    def objective(self, tree, case):
        return self.total(tree, case)

    def optimum(self, case):
        d, k, ml = self.limit(case)
        M, y, sp, o = case["aux"]["M"], case["rows"]["y"], case["aux"]["specs"], self.owner(case)
        K = max(y) + 1
        cls = [sum(1 << i for i, v in enumerate(y) if v == j) for j in range(K)]

        def leaf(m):
            if m.bit_count() < ml: return math.inf
            cnt = [(m & c).bit_count() for c in cls]
            return min(sum(cnt[t] * M[t][l] for t in range(K)) for l in range(K))

        def branch(f, n, ctx):
            i = o[f]
            if i in ctx[0]: return 0.0
            return n * (sp[i][1] if sp[i][2] in ctx[1] else sp[i][0])

        def step(f, ctx):
            return (ctx[0] | {o[f]}, ctx[1] | {sp[o[f]][2]})
        return O.best_path(case["rows"]["X"], leaf, d, k, branch, (frozenset(), frozenset()), step)

    def standard(self, case):
        """Normalisation of the score: all tests once plus the cost of always guessing the largest class."""
        sp, groups, t = case["aux"]["specs"], set(), 0.0
        for s in sorted(sp, key=lambda s: s[3]):
            t += s[1] if s[2] in groups else s[0]
            groups.add(s[2])
        y = case["rows"]["y"]
        big = max(y.count(v) for v in set(y))
        return t + (1 - big / len(y)) * max(max(r) for r in case["aux"]["M"])

    def score_of(self, tree, case, train=None):
        s = self.standard(case)
        if s <= 1e-12: return None
        return self.total(tree, case) / len(case["rows"]["y"]) / s


class InstanceCost(Task):
    name, cls = "instance-cost-sensitive", ps.STreeDInstanceCostSensitiveClassifier
    size = (40, 8, 4)
    tol = 1e-4
    maximise_score = False

    def gen_rows(self, rng, n, F, K=None):
        X = G.binary_matrix(rng, n, F)
        K = K or G.pick(rng, [2, 2, 2, 3, 3, 4, 4, 6])
        style = G.pick(rng, ["int", "float", "true-label", "tree", "big"])
        if style == "int": C = rng.integers(0, 10, (n, K)).astype(float)
        elif style == "float": C = np.round(rng.random((n, K)) * 10, 3)
        elif style == "big": C = np.round(rng.random((n, K)) * 1e4, 1)
        else:
            y = G.labels(rng, X, K)
            C = np.round(rng.random((n, K)) * 5, 2) if style == "tree" else np.ones((n, K)) * float(rng.integers(1, 5))
            for i in range(n): C[i, y[i]] = 0.0 if style == "true-label" else C[i, y[i]] * 0.1
        return {"rows": {"X": X, "C": C}}

    def fit_args(self, case):
        return [self.X(case["rows"]), np.array(case["rows"]["C"], dtype=float)]
    score_args = fit_args

    def labels(self, case):
        """Labels a leaf may take: the package offers those up to the largest cheapest label."""
        return range(len(case["rows"]["C"][0]))

    def values(self, case):
        return case["rows"]["C"]

    def objective(self, tree, case):
        return sum(c[p] for p, c in zip(self.leaf_values(tree, case), self.values(case)))

    def optimum(self, case):
        d, k, ml = self.limit(case)
        V, K = self.values(case), self.labels(case)

        def leaf(m):
            if m.bit_count() < ml: return math.inf
            idx = [i for i in range(len(V)) if m >> i & 1]
            return min(sum(V[i][l] for i in idx) for l in K)
        return O.best(case["rows"]["X"], leaf, d, k, floor=self.floor(case))

    def floor(self, case):
        return 0.0

    def score_of(self, tree, case, train=None):
        return self.objective(tree, case)


class Policy(InstanceCost):
    name, cls = "prescriptive-policy", ps.STreeDPrescriptivePolicyGenerator
    maximise_score = True

    def gen_rows(self, rng, n, F, K=None):
        X = G.binary_matrix(rng, n, F)
        K = K or G.pick(rng, [2, 2, 2, 3, 3, 5])
        k = rng.integers(0, K, n)
        k[:min(n, K)] = np.arange(min(n, K))
        opt = G.labels(rng, X, K)
        scale = G.pick(rng, [1.0, 10.0])
        off = G.pick(rng, [0.0, 0.0, 5.0, -5.0])
        cf = np.round(rng.normal(size=(n, K)) * scale * 0.5 + off, 2)
        for i in range(n): cf[i, opt[i]] += scale
        y = np.array([cf[i, k[i]] for i in range(n)])
        mu = np.round(rng.uniform(0.1, 0.95, n), 2)
        if G.chance(rng, 0.1): mu[G.ri(rng, 0, n - 1)] = 0.0
        if G.chance(rng, 0.15):                        # rarely prescribed treatments weigh heavily
            for i in range(n):
                if G.chance(rng, 0.3): mu[i] = G.pick(rng, [0.002, 0.005, 0.01, 0.03])
        yhat = np.round(cf + rng.normal(size=(n, K)) * scale * 0.4, 2)
        T = np.concatenate([k[:, None], y[:, None], mu[:, None], yhat, np.argmax(cf, axis=1)[:, None], cf], axis=1)
        return {"rows": {"X": X, "T": T}, "K": K}

    def gen_params(self, rng, case):
        return {"teacher_method": G.pick(rng, ["DM", "IPW", "DR"])}

    def fit_args(self, case):
        if not self.valid(case): raise Skip()         # every treatment has to occur
        return self.score_args(case)

    def score_args(self, case):
        return [self.X(case["rows"]), np.array(case["rows"]["T"], dtype=float)]

    def valid(self, case):
        return len({int(t[0]) for t in case["rows"]["T"]}) == case["K"]

    def labels(self, case):
        return range(case["K"])

    def values(self, case):
        """Negated teacher value per row and treatment."""
        if not self.valid(case): raise Skip()
        m, K, out = case["params"].get("teacher_method", "DR"), case["K"], []
        for t in case["rows"]["T"]:
            h, y, mu, yh = int(t[0]), t[1], t[2], t[3:3 + K]
            tiny = abs(mu) <= 1e-6
            if m == "DM": v = yh
            elif m == "IPW": v = [y / mu if (a == h and not tiny) else 0.0 for a in range(K)]
            else: v = [0.0 if tiny else yh[a] + ((y - yh[a]) / mu if a == h else 0.0) for a in range(K)]
            out.append([-x for x in v])
        return out

    def floor(self, case):
        return -math.inf

    def slack(self, opt):
        return 1e-3 + self.tol * abs(opt) * 10

    def slack_for(self, case):
        # the solver compares sums of values shifted to be non-negative, to a relative 1e-4
        V = self.values(case)
        lo = min(min(r) for r in V)
        return 1e-6 + 2e-4 * sum(max(r) - lo for r in V)

    def score_of(self, tree, case, train=None):
        K = case["K"]
        p, T = self.leaf_values(tree, case), case["rows"]["T"]
        return sum(a == int(t[3 + K]) for a, t in zip(p, T)) / len(T)


# ---------------------------------------------------------------- regression

def targets(rng, X):
    n, F = X.shape
    style = G.pick(rng, ["tree", "normal", "int", "lin", "tree", "outlier", "two"])
    if style == "tree":
        t = G.random_tree(rng, F, G.ri(rng, 1, 4), lambda: float(np.round(rng.normal() * 5, 1)))
        y = np.array([G.apply_tree(t, x) for x in X]) + rng.normal(size=n) * G.pick(rng, [0, 0.1, 1.0])
    elif style == "two":                             # two values, mixed within equal rows
        t = G.random_tree(rng, F, G.ri(rng, 1, 3), lambda: G.pick(rng, [0.0, 0.1, 0.5, 0.9, 1.0]))
        y = (rng.random(n) < np.array([G.apply_tree(t, x) for x in X])).astype(float)
    elif style == "int": y = rng.integers(0, 4, n).astype(float)
    elif style == "lin": y = X @ rng.normal(size=F) + rng.normal(size=n) * 0.3
    elif style == "outlier":
        y = rng.normal(size=n)
        y[G.ri(rng, 0, n - 1)] += 20
    else: y = rng.normal(size=n)
    y = y * G.pick(rng, [1.0, 1.0, 10.0, 100.0]) + G.pick(rng, [0.0, 0.0, 3.0, -50.0])
    return np.round(y, 4)


class Regression(Task):
    name, cls, fixed = "regression", ps.STreeDRegressor, {"optimization_task": "regression"}
    tol = 1e-3
    size = (50, 8, 4)
    maximise_score = False

    def gen_rows(self, rng, n, F):
        X = G.binary_matrix(rng, n, F)
        return {"rows": {"X": X, "y": targets(rng, X)}}

    def sse(self, case):
        y, ml = case["rows"]["y"], self.min_leaf(case)
        mu = sum(y) / len(y)
        z = [v - mu for v in y]                       # centred: less rounding

        def leaf(m):
            idx = [i for i in range(len(z)) if m >> i & 1]
            if len(idx) < ml: return math.inf
            s = sum(z[i] for i in idx)
            return max(0.0, sum(z[i] * z[i] for i in idx) - s * s / len(idx))
        return leaf

    def objective(self, tree, case):
        return sum((p - t) ** 2 for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.sse(case), d, k)

    def scale(self, case):
        """Sum of squares around zero and around the mean: what rounding errors are relative to."""
        y = case["rows"]["y"]
        mu = sum(y) / len(y)
        return sum((v - mu) ** 2 for v in y), sum(v * v for v in y)

    def slack_for(self, case, opt):
        ss, yy = self.scale(case)
        return 1e-3 * abs(opt) + 1e-5 * ss + 1e-9 * yy + 1e-6

    def score_of(self, tree, case, train=None):
        y = case["rows"]["y"]
        return sum((p - t) ** 2 for p, t in zip(self.leaf_values(tree, case), y)) / len(y)


class CostComplexRegression(Regression):
    name, fixed = "cost-complex-regression", {"optimization_task": "cost-complex-regression"}
    nodes = False

    def gen_params(self, rng, case):
        return {"cost_complexity": G.pick(rng, [0.0, 0.01, round(float(rng.uniform(0, 0.05)), 4), round(float(rng.uniform(0, 0.3)), 4), 1.0],
                                          p=[.1, .3, .3, .25, .05])}

    def cc(self, case):
        return case["params"].get("cost_complexity", 0.01) * self.scale(case)[0]

    def objective(self, tree, case):
        return super().objective(tree, case) + O.nodes_of(tree) * self.cc(case)

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.sse(case), d, k, branch=self.cc(case))


# ---------------------------------------------------------------- linear leaves

class Linear(Task):
    cls = ps.STreeDPiecewiseLinearRegressor
    nodes = False
    tol = 1e-3
    size = (60, 4, 2)
    maximise_score = False

    def gen_rows(self, rng, n, F, C=None):
        X = G.binary_matrix(rng, n, F)
        C = C or G.pick(rng, [1, 2, 3])
        Z = rng.normal(size=(n, C))
        if G.chance(rng, 0.08): Z[:, G.ri(rng, 0, C - 1)] = G.pick(rng, [0.0, 0.1, 1.0, 7.3])      # a constant column
        if G.chance(rng, 0.08): Z = Z * (X[:, :1] if G.chance(rng, 0.5) else 1 - X[:, :1])          # constant in part of the data
        if C > 1 and G.chance(rng, 0.3): Z[:, 1] = Z[:, 0] * 0.7 + Z[:, 1] * 0.5
        if G.chance(rng, 0.2): Z[rng.random(n) < 0.1] *= G.pick(rng, [5.0, 20.0])                       # points of high leverage
        Z = Z * G.pick(rng, [1.0, 1.0, 3.0]) + G.pick(rng, [0.0, 0.0, 4.0, -2.0])
        if G.chance(rng, 0.2): Z = np.round(Z)
        t = G.random_tree(rng, F, G.ri(rng, 0, 2), lambda: [float(v) for v in np.round(rng.normal(size=C + 1) * 3, 1)])
        y = np.array([(lambda w: w[0] + float(np.dot(w[1:], z)))(G.apply_tree(t, x)) for x, z in zip(X, Z)])
        y = y + rng.normal(size=n) * G.pick(rng, [0.05, 0.5, 1.0])
        if G.chance(rng, 0.06): y[X[:, 0] == G.ri(rng, 0, 1)] = 2.0                                  # constant target in part of the data
        if G.chance(rng, 0.2): y = y * G.pick(rng, [0.1, 10.0, 100.0]) + G.pick(rng, [0.0, 50.0])
        return {"rows": {"X": X, "Z": np.round(Z, 4), "y": np.round(y, 4)}}

    def gen_params(self, rng, case):
        return {"cost_complexity": G.pick(rng, [0.0, 0.01, 0.001, round(float(rng.uniform(0, 0.1)), 4)])}

    def fit_args(self, case):
        r = case["rows"]
        return [self.X(r), np.array(r["y"], dtype=float), np.array(r["Z"], dtype=float)]
    score_args = fit_args

    def predict(self, est, case):
        return est.predict(self.X(case["rows"]), np.array(case["rows"]["Z"], dtype=float))

    def tree(self, est):
        def conv(t):
            if t[0] == "B": return ("B", t[1], conv(t[2]), conv(t[3]))
            return ("L", ([float(v) for v in t[1].coefficients], float(t[1].intercept)))
        return conv(O.tree_of(est.tree_))

    def limit(self, case):
        d, k, ml = super().limit(case)
        return d, k, ml

    def leaf_values(self, tree, case):
        out = []
        for x, z in zip(case["rows"]["X"], case["rows"]["Z"]):
            b, b0 = O.leaf_of(tree, x)[0][1]
            out.append(b0 + sum(c * v for c, v in zip(b, z)))
        return out

    def scale(self, case):
        y = case["rows"]["y"]
        mu = sum(y) / len(y)
        return sum((v - mu) ** 2 for v in y), sum(v * v for v in y)

    def cc(self, case):
        return case["params"].get("cost_complexity", 0.01) * self.scale(case)[0]

    def score_of(self, tree, case, train=None):
        y = case["rows"]["y"]
        return sum((p - t) ** 2 for p, t in zip(self.leaf_values(tree, case), y)) / len(y)


class SimpleLinear(Linear):
    name, fixed = "simple-linear-regression", {"simple": True}

    def gen_params(self, rng, case):
        p = super().gen_params(rng, case)
        if G.chance(rng, 0.5): p["lasso_penalty"] = G.pick(rng, [0.01, 0.1, 1.0, 5.0, round(float(rng.random()) * 3, 3)])
        return p

    def min_leaf(self, case):
        return max(5, super().min_leaf(case))

    def variances(self, case):
        Z = np.array(case["rows"]["Z"], float)
        return Z.var(axis=0)

    def penalty(self, case):
        return case["params"].get("lasso_penalty", 0.0) * self.variances(case)

    def leaf_fit(self, case):
        Z, y = np.array(case["rows"]["Z"], float), np.array(case["rows"]["y"], float)
        pen, ml = self.penalty(case), self.min_leaf(case)

        def leaf(m):
            idx = [i for i in range(len(y)) if m >> i & 1]
            if len(idx) < ml: return math.inf
            z, t = Z[idx], y[idx]
            zc, tc = z - z.mean(axis=0), t - t.mean()
            syy = float(tc @ tc)
            best = math.inf
            for j in range(z.shape[1]):
                den = float(zc[:, j] @ zc[:, j]) + pen[j]
                num = float(zc[:, j] @ tc)
                best = min(best, syy if den * len(idx) < 1e-3 else syy - num * num / den)
            return max(0.0, best)
        return leaf

    def delicate(self, case):
        """A leaf whose spread is so small that the solver's absolute cut-off decides is not judged."""
        return False

    def objective(self, tree, case):
        pen = self.penalty(case)
        o = sum((p - t) ** 2 for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))
        for l, idx, _ in O.partition(tree, case["rows"]["X"]):
            o += sum(p * b * b for p, b in zip(pen, l[1][0]))
        return o + O.nodes_of(tree) * self.cc(case)

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.leaf_fit(case), d, k, branch=self.cc(case))

    def slack_for(self, case, opt):
        ss, yy = self.scale(case)
        return 1e-3 * abs(opt) + 1e-5 * ss + 1e-8 * yy + 1e-6


class PiecewiseLinear(Linear):
    name, fixed = "piecewise-linear-regression", {"simple": False}

    def gen_params(self, rng, case):
        p = super().gen_params(rng, case)
        if G.chance(rng, 0.5): p["lasso_penalty"] = G.pick(rng, [0.01, 0.05, 0.1, round(float(rng.random()) * 0.5, 3)])
        if G.chance(rng, 0.5): p["ridge_penalty"] = G.pick(rng, [0.01, 0.1, 1.0, round(float(rng.random()), 3)])
        return p

    def min_leaf(self, case):
        return max(5 * len(case["rows"]["Z"][0]), super().min_leaf(case))

    def spreads(self, case):
        s = np.array(case["rows"]["Z"], float).std(axis=0)
        return np.where(s < 1e-6, 1.0, s)

    def penalties(self, case):
        p = case["params"]
        return p.get("lasso_penalty", 0.0), p.get("ridge_penalty", 0.0)

    def leaf_fit(self, case):
        """Elastic net on features scaled by their spread over the training data:
        squared error + 2 n lasso |b| + n ridge b^2, solved by long coordinate descent."""
        Z, y = np.array(case["rows"]["Z"], float) / self.spreads(case), np.array(case["rows"]["y"], float)
        lasso, ridge = self.penalties(case)
        ml = self.min_leaf(case)
        self.conditioning = 1.0                       # smallest eigenvalue of a leaf's correlation matrix met so far

        def leaf(m):
            idx = [i for i in range(len(y)) if m >> i & 1]
            k = len(idx)
            if k < ml: return math.inf
            z, t = Z[idx], y[idx]
            zc, tc = z - z.mean(axis=0), t - t.mean()
            A, c, yy = (zc.T @ zc).tolist(), (zc.T @ tc).tolist(), float(tc @ tc)
            C = len(c)
            q = np.array(A) + k * ridge * np.eye(C)
            q = q[np.ix_(q.diagonal() > 1e-6, q.diagonal() > 1e-6)]
            if len(q) > 1:
                q = q / np.sqrt(np.outer(q.diagonal(), q.diagonal()))
                self.conditioning = min(self.conditioning, float(np.linalg.eigvalsh(q)[0]))
            b = [0.0] * C
            for _ in range(3000):
                d = 0.0
                for j in range(C):
                    r = c[j] - sum(A[j][q] * b[q] for q in range(C) if q != j)
                    r = math.copysign(max(0.0, abs(r) - k * lasso), r)
                    den = A[j][j] + k * ridge
                    v = r / den if den > 1e-9 else 0.0
                    d = max(d, abs(v - b[j]))
                    b[j] = v
                if d < 1e-9: break
            return max(0.0, yy - 2 * sum(p * q for p, q in zip(b, c)) + sum(b[i] * b[j] * A[i][j] for i in range(C) for j in range(C))
                       + 2 * k * lasso * sum(map(abs, b)) + k * ridge * sum(v * v for v in b))
        return leaf

    def objective(self, tree, case):
        s = self.spreads(case)
        lasso, ridge = self.penalties(case)
        o = sum((p - t) ** 2 for p, t in zip(self.leaf_values(tree, case), case["rows"]["y"]))
        for l, idx, _ in O.partition(tree, case["rows"]["X"]):
            b = [v * q for v, q in zip(l[1][0], s)]
            o += len(idx) * (2 * lasso * sum(map(abs, b)) + ridge * sum(v * v for v in b))
        return o + O.nodes_of(tree) * self.cc(case)

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.leaf_fit(case), d, k, branch=self.cc(case))

    def slack_for(self, case, opt):
        ss, yy = self.scale(case)
        return 0.01 * abs(opt) + 0.001 * ss + 1e-8 * yy + 1e-6


# ---------------------------------------------------------------- survival

class Survival(Task):
    name, cls = "survival-analysis", ps.STreeDSurvivalAnalysis
    tol = 1e-3
    size = (40, 7, 3)
    maximise_score = False

    def gen_rows(self, rng, n, F):
        X = G.binary_matrix(rng, n, F)
        t = G.random_tree(rng, F, G.ri(rng, 0, 3), lambda: float(rng.uniform(0.2, 5)))
        T = rng.exponential(1.0, n) / np.array([G.apply_tree(t, x) for x in X]) * G.pick(rng, [1.0, 10.0, 300.0])
        style = G.pick(rng, ["float", "int", "few"])
        if style == "int": T = np.ceil(T)
        elif style == "few": T = np.array([float(v) for v in rng.integers(1, 6, n)])
        else: T = np.round(T + 0.01, 3)
        ev = (rng.random(n) < G.pick(rng, [1.0, 0.7, 0.4, 0.15])).astype(int)
        ev[G.ri(rng, 0, n - 1)] = 1
        return {"rows": {"X": X, "T": T, "E": ev}}

    def ymat(self, rows):
        return np.array([(bool(e), float(t)) for e, t in zip(rows["E"], rows["T"])], dtype=[("event", bool), ("time", float)])

    def fit_args(self, case):
        return self.score_args(case)

    def score_args(self, case):
        if sum(case["rows"]["E"]) == 0: raise Skip()        # sksurv rejects data in which all samples are censored
        return [self.X(case["rows"]), self.ymat(case["rows"])]

    @staticmethod
    def baseline(T, E):
        """Nelson-Aalen cumulative hazard with 1/(n+1) before the first event; returns (times, values)."""
        n, H, ts, vs = len(T), 0.0, [0.0], [1.0 / (len(T) + 1)]
        for t in sorted(set(T)):
            d = sum(1 for a, e in zip(T, E) if a == t and e)
            if d == 0: continue
            H += d / sum(1 for a in T if a >= t)
            ts.append(t)
            vs.append(H)
        return ts, vs

    @staticmethod
    def at(base, t):
        v = base[1][0]
        for a, b in zip(*base):
            if a <= t + 1e-6: v = b
        return v

    def hazards(self, case, train=None):
        tr = (train or case)["rows"]
        base = self.baseline(tr["T"], tr["E"])
        return [self.at(base, t) for t in case["rows"]["T"]]

    def leaf_loss(self, case, H):
        E, ml = case["rows"]["E"], self.min_leaf(case)
        lg = [-math.log(h) if e else 0.0 for h, e in zip(H, E)]

        def leaf(m):
            idx = [i for i in range(len(E)) if m >> i & 1]
            if len(idx) < ml: return math.inf
            ev = sum(E[i] for i in idx)
            if ev == 0: return 0.0
            return max(0.0, sum(lg[i] for i in idx) - ev * math.log(ev / sum(H[i] for i in idx)))
        return leaf

    def objective(self, tree, case):
        H = self.hazards(case)
        leaf = self.leaf_loss({**case, "params": {}}, H)
        return sum(leaf(sum(1 << i for i in idx)) for _, idx, _ in O.partition(tree, case["rows"]["X"]) if idx)

    def optimum(self, case):
        d, k, _ = self.limit(case)
        return O.best(case["rows"]["X"], self.leaf_loss(case, self.hazards(case)), d, k)

    def slack_for(self, case, opt):
        return 1e-3 * abs(opt) + 1e-3

    def leaf_theta(self, case, idx, H):
        return max(0.5, sum(case["rows"]["E"][i] for i in idx)) / sum(H[i] for i in idx)

    def score_of(self, tree, case, train=None):
        """Average over instances of the loss relative to the saturated model."""
        H = self.hazards(case, train)
        th = self.leaf_values(tree, case)
        s = 0.0
        for h, e, t in zip(H, case["rows"]["E"], th):
            s += t * h - e - (e * math.log(t * h) if e else 0.0)
        return s / len(th)


ALL = {}
for _t in [Accuracy(), CostComplexAccuracy(), F1(), Fairness("group-fairness"), Fairness("equality-of-opportunity"), CostSensitive(),
           InstanceCost(), Policy(), Regression(), CostComplexRegression(), SimpleLinear(), PiecewiseLinear(), Survival()]:
    ALL[_t.name] = _t


def slack(task, case, opt):
    f = getattr(task, "slack_for", None)
    if f is None: return task.slack(opt)
    try:
        return f(case, opt)
    except TypeError:
        return f(case)
