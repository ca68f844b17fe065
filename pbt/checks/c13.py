"""C13: results depend on the last data and parameters only, and no call changes its inputs."""
import copy, gc, json, os, pickle, tempfile, warnings
from ..common import *
from .. import table as TB
import numpy as np
import pandas as pd

ID = "C13"
RULE = ("random sequences of construct, clone, set-parameter, fit, refit, predict, score, question-length, probability, tree, print, export and drop-model calls on "
        "up to three models of up to two tasks with up to three data sets each (arrays, Fortran-ordered arrays, Boolean arrays, data frames, a quarter tables with numeric and categorical columns, which the model binarises with random settings); every result is compared with the "
        "same call on a fresh model in a fresh process, and every argument with a copy taken before the call; non-trivial: a model is fitted at least "
        "twice or two models are fitted, and something is asked afterwards")
CASES = {"quick": 5000, "thorough": 100000}
CHUNK = 20
FORMS = ["array", "array", "fortran", "frame", "bool"]
WRITES = ("print_tree", "export_dot")
LIMITS = {"group-fairness": 16, "equality-of-opportunity": 16, "f1-score": 25}


def gen(rng, tier, i):
    names = [G.pick(rng, sorted(T.ALL)) for _ in range(G.pick(rng, [1, 1, 2]))]
    data, params = [], []
    for k, nm in enumerate(names):
        t = T.ALL[nm]
        F = G.ri(rng, 2, 5)
        for _ in range(G.ri(rng, 1, 3)):
            n = G.ri(rng, 4, LIMITS.get(nm, 35))
            c = t.gen_rows(rng, n, F if G.chance(rng, 0.85) else G.ri(rng, 1, 5))
            c["task"] = nm
            c["form"] = G.pick(rng, FORMS)
            if "sens" not in c and G.chance(rng, 0.25):
                # columns that the model turns into binary ones; often the same columns as in the other data sets of the task
                old = [e["cols"] for e in data if e["task"] == nm and e["form"] == "table"]
                if old and G.chance(rng, 0.7): cols = G.pick(rng, old)
                else: cols = TB.table(rng, 1, 0)["cols"]
                if nm.endswith("linear-regression") and not any(k == "num" for _, k in cols): cols = cols[:2] + [["z", "num"]]
                c["form"], c["cols"] = "table", cols
                c["rows"]["R"] = [list(r) for r in zip(*[TB.column(rng, k, n, 0)[0] for _, k in cols])]
            data.append(c)
            p = t.gen_limits(rng, n, 3)
            p.update(t.gen_params(rng, c))
            p.update(G.options(rng, t.accepted))
            if "aux" not in c and G.chance(rng, 0.4): p["n_thresholds"], p["n_categories"] = G.ri(rng, 1, 6), G.ri(rng, 2, 6)
            if "aux" not in c and G.chance(rng, 0.4): p["continuous_binarize_strategy"] = G.pick(rng, ["quantile", "uniform", "tree"])
            if G.chance(rng, 0.2): p["random_seed"] = G.pick(rng, [0, 1, 99])
            params.append([nm, p])
    ops, M = [], G.ri(rng, 1, 3)
    kinds = {}
    for m in range(M):
        kinds[m] = G.pick(rng, names)
        ops.append(["new", m, G.pick(rng, [j for j, q in enumerate(params) if q[0] == kinds[m]])])
    for _ in range(G.ri(rng, 3, 14)):
        m = G.ri(rng, 0, M - 1)
        ds = [j for j, c in enumerate(data) if c["task"] == kinds[m]]
        ps_ = [j for j, q in enumerate(params) if q[0] == kinds[m]]
        op = G.pick(rng, ["fit", "predict", "score", "qlen", "tree", "set", "new", "clone", "proba", "fails", "drop", "print_tree", "export_dot"],
                    p=[.3, .18, .16, .04, .06, .08, .02, .03, .04, .03, .02, .02, .02])
        if op in ("fit", "predict", "score", "qlen", "proba"): ops.append([op, m, G.pick(rng, ds)])
        elif op in ("set", "new"): ops.append([op, m, G.pick(rng, ps_)])
        else: ops.append([op, m, 0])
    return {"rows": {"X": [[0]] * 4}, "params": {}, "data": data, "sets": params, "ops": ops}


def shrinks(case):
    ops = case["ops"]
    size = len(ops) // 2
    while size >= 1:
        for a in range(0, len(ops), size): yield {**case, "ops": ops[:a] + ops[a + size:]}
        size //= 2
    for j, (nm, p) in enumerate(case["sets"]):
        for k in p:
            q = {a: b for a, b in p.items() if a != k}
            yield {**case, "sets": case["sets"][:j] + [[nm, q]] + case["sets"][j + 1:]}
    for j, c in enumerate(case["data"]):
        n = len(c["rows"]["X"])
        if c["form"] != "array": yield {**case, "data": case["data"][:j] + [{**c, "form": "array"}] + case["data"][j + 1:]}
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                if n - size < 2: continue
                r = {k: v[:a] + v[a + size:] for k, v in c["rows"].items()}
                yield {**case, "data": case["data"][:j] + [{**c, "rows": r}] + case["data"][j + 1:]}
            size //= 2


def shape(args, form):
    X = args[0]
    if form == "fortran": X = np.asfortranarray(X)
    elif form == "bool": X = X.astype(bool)
    elif form == "frame": X = pd.DataFrame(X, columns=["c%d" % j for j in range(X.shape[1])])
    return [X] + list(args[1:])


def same(a, b):
    if isinstance(a, pd.DataFrame): return a.equals(b) and list(a.columns) == list(b.columns) and list(a.dtypes) == list(b.dtypes)
    if isinstance(a, np.ndarray): return a.dtype == b.dtype and a.shape == b.shape and a.tobytes("A") == b.tobytes("A")
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "__dict__"): return same(sorted(a.__dict__.items(), key=lambda q: q[0]), sorted(b.__dict__.items(), key=lambda q: q[0]))
    return a == b


def copies(args):
    out = []
    for a in args:
        try: out.append(copy.deepcopy(a))
        except TypeError: out.append(None)                # native objects without value semantics
    return out


def written(write):
    """The text that a call writes to the given file."""
    with tempfile.TemporaryDirectory() as d:
        write(os.path.join(d, "tree"))
        with open(os.path.join(d, "tree"), encoding="utf-8") as f: return f.read().replace(d, "")


def call(est, t, op, c):
    """Plain data describing the outcome of one call; reports changed arguments."""
    named = {}
    if op == "tree":
        f = lambda: (est.get_tree() and repr(t.tree(est)), est.get_depth(), est.get_n_leaves())
        args = []
    elif op in WRITES:
        args, f = [], lambda: written(getattr(est, op))
    elif op == "fails":
        args, f = [], lambda: est.fit(np.zeros((1, 1), int), np.zeros(3))
    else:
        try:
            args = shape(t.fit_args(c) if op == "fit" else t.score_args(c), c["form"])
            if c["form"] == "table":
                args[0] = TB.data({"cols": c["cols"]}, c["rows"]["R"], "frame")
                if t.name.endswith("linear-regression"): args = args[:2] + [None]
                if op == "fit": named = {"categorical_columns" if len(args) > 2 else "categorical": TB.categorical({"cols": c["cols"]}, "frame")}
        except Skip:
            return None
        if op == "fit":
            if "sens" in c: est.sensitive_feature = c["sens"]
            f = lambda: est.fit(*args, **named)
        elif op == "predict":
            args = args[:1] + (args[2:] if t.name.endswith("linear-regression") else [])
            f = lambda: est.predict(*args)
        elif op == "score": f = lambda: est.score(*args[:3] if t.name.endswith("linear-regression") else args[:2])
        elif op == "qlen": f = lambda: est.get_question_length(*args[:3] if t.name.endswith("linear-regression") else args[:2])
        elif op == "proba": args = args[:1]; f = lambda: est.predict_proba(*args)
    keep = copies(args)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            v = f()
        except Exception as e:
            out = ("raised", type(e).__name__)
        else:
            if op == "fit": v = fit_summary(t, est)
            elif hasattr(v, "tolist"): v = v.tolist()
            out = ("ok", repr(v))
    if not all(b is None or same(a, b) for a, b in zip(args, keep)): return ("changed-input", "%s changed its arguments" % op)
    return out


def fit_summary(t, est):
    r = getattr(est, "fit_result", None)
    if r is None: return "no tree"
    return (repr(t.tree(est)), r.score(), r.tree_depth(), r.tree_nodes(), r.is_optimal())


def fresh(t, p, c, later, op, d):
    """The same call in a forked process on a new model."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            est = t.make(p)
            out = None
            if c is not None: out = call(est, t, "fit", c)
            if op != "fit":
                if later:
                    try: est.set_params(**later)
                    except Exception: pass
                out = call(est, t, op, d)
            with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f: b = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not b: return ("died", str(st))
    return pickle.loads(b)


def check(case):
    data, sets = case["data"], case["sets"]
    M, memo = {}, {}
    fits, asked, lb = 0, False, [c["task"] for c in data] + ["form:" + c["form"] for c in data]
    for step, (op, m, a) in enumerate(case["ops"]):
        lb.append(op)
        if op == "new":
            nm, p = sets[a]
            t = T.ALL[nm]
            M[m] = {"t": t, "est": t.make(p), "p": p, "fit": None, "later": {}, "sens": None}
            continue
        if m not in M: continue
        s = M[m]
        t, est = s["t"], s["est"]
        if op == "drop":
            del M[m], est, s
            gc.collect()
            continue
        if op == "clone":
            from sklearn.base import clone
            M[m] = {**s, "est": clone(est), "p": {k: v for k, v in est.get_params().items() if k not in t.fixed}, "fit": None, "later": {}}
            continue
        if op == "set":
            if sets[a][0] != t.name: continue
            q = sets[a][1]
            est.set_params(**q)
            s["later"] = {**s["later"], **q}
            continue
        d = data[a] if op not in ("tree", "fails") + WRITES else None
        if d is not None and d["task"] != t.name: continue
        if op == "fails":
            call(est, t, op, None)
            s["fit"] = "refused"                          # nothing is promised until the next fit
            continue
        if s["fit"] == "refused" and op != "fit": continue
        if op == "fit":
            s["p"], s["later"] = {**s["p"], **s["later"]}, {}
            s["fit"] = d
        key = json.dumps([t.name, s["p"], data.index(s["fit"]) if s["fit"] is not None else -1, s["later"], op, a], sort_keys=True)
        if key not in memo: memo[key] = fresh(t, s["p"], s["fit"], s["later"], op, d)
        exp, got = memo[key], call(est, t, op, d)
        if exp == ("died", "0") or exp is None or got is None: raise Skip()
        if exp[0] == "died": raise Skip()
        if got[0] == "changed-input": raise Violation("changed-input", "step %d: %s (%s data)" % (step, got[1], d and d["form"]))
        if exp[0] == "changed-input": raise Violation("changed-input", "fresh model: %s" % exp[1])
        if got != exp: raise Violation("history", "step %d %s: %s, on a fresh model %s" % (step, op, str(got)[:300], str(exp)[:300]))
        if op == "fit" and got[0] == "raised": s["fit"] = "refused"
        elif op == "fit": fits += 1
        elif fits: asked = True
    if not fits: raise Skip()
    return Result(fits >= 2 and asked, lb, len(memo))
