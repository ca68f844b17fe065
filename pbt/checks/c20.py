"""C20: printed and exported trees describe exactly the model that predicts."""
import contextlib, io, os, re, sys, tempfile, warnings
from ..common import *
from .. import table as TB
import numpy as np
import pandas as pd

ID = "C20"
RULE = ("fitted models of all 13 tasks on binary arrays, on binary data frames and on tables of numeric, categorical and binary columns, with and without feature and label names "
        "given by the user; the printed text (to a file and to the screen) and the exported graph are parsed and followed for every training row and other rows, which "
        "has to lead to the predicted value through the columns, thresholds and directions of the model; non-trivial: the tree has a branching node")
CASES = {"quick": 28000, "thorough": 400000}
CHUNK = 40
NAMES = ["c%d", "col %d", "x%d_é", "f_%d", "age <= %d0", "%d <= income <= 50k", "rate <= 0.%d25", "is 'v%d'", "f%d <= low"]
LABELS = ["class %d", "L%d", "%d!", "it's %d", "no <= %d"]
IMAGES = ("survival-analysis", "piecewise-linear-regression", "simple-linear-regression", "instance-cost-sensitive")
TABLES = ("accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression")


def gen(rng, tier, i):
    nm = G.pick(rng, sorted(T.ALL))
    t = T.ALL[nm]
    form = G.pick(rng, ["array", "frame", "table"], p=[.35, .3, .35])
    if form == "table" and nm not in TABLES: nm = G.pick(rng, TABLES); t = T.ALL[nm]
    N, F, D = t.size
    n, F = G.ri(rng, 6, min(N, 40)), G.ri(rng, 1, min(F, 5))
    c = t.gen_rows(rng, n, F)
    F = len(c["rows"]["X"][0])
    c["task"], c["form"] = nm, form
    c["params"] = {"max_depth": 0 if G.chance(rng, 0.05) else G.ri(rng, 1, min(3, D)), **t.gen_params(rng, c)}
    if nm in ("cost-complex-accuracy", "cost-complex-regression") and G.chance(rng, 0.7): c["params"]["cost_complexity"] = 0.001
    if nm in ("group-fairness", "equality-of-opportunity"): c["params"]["discrimination_limit"] = G.pick(rng, [0.3, 1.0])
    if form == "table":
        c["tab"] = TB.table(rng, n, 12)
        c["params"]["continuous_binarize_strategy"] = G.pick(rng, ["quantile", "uniform", "tree"])
        c["params"]["n_thresholds"] = G.ri(rng, 1, 6)
        c["params"]["n_categories"] = G.ri(rng, 2, 6)
        if nm in ("accuracy", "cost-complex-accuracy"):
            X = np.array([[hash_of(v, j) % 2 for j, v in enumerate(r)] for r in c["tab"]["R"]])
            c["rows"]["y"] = G.labels(rng, X, G.ri(rng, 2, 4))
    else:
        style = [G.pick(rng, NAMES) for _ in range(F)]
        c["names"] = [s % j for j, s in enumerate(style)]
        c["later"] = G.binary_matrix(rng, 10, F)
        if G.chance(rng, 0.4): c["given"] = ["given %d" % j if G.chance(rng, 0.5) else G.pick(rng, NAMES) % (j + 40) for j in range(F)]
    if G.chance(rng, 0.4): c["labels"] = G.pick(rng, LABELS)
    c["by_name"] = bool(G.chance(rng, 0.5))
    c["draw"] = bool(G.chance(rng, 0.01))
    c["screen"] = bool(G.chance(rng, 0.3))
    return c


def hash_of(v, j):
    return sum(ord(ch) for ch in repr(v)) + j


def shrinks(case):
    from ..engine import default_shrinks
    for k in ("given", "labels"):
        if k in case: yield {a: b for a, b in case.items() if a != k}
    for k in ("draw", "screen", "by_name"):
        if case.get(k): yield {**case, k: False}
    n = len(case["rows"]["X"])
    if "tab" in case:
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                cut = lambda l: l[:a] + l[a + size:]
                if n - size >= 2: yield {**case, "rows": {k: cut(v) for k, v in case["rows"].items()}, "tab": {**case["tab"], "R": cut(case["tab"]["R"])}}
            size //= 2
        return
    for c in default_shrinks(case):
        if len(c["rows"]["X"][0]) == len(case["rows"]["X"][0]): yield c


def parse_text(lines):
    """Nested (predicate, no, yes) / ("leaf", text)."""
    def at(k, ind):
        l = lines[k]
        if not l.startswith(ind): raise Violation("layout", "line %d is not indented by %r: %r" % (k, ind, l))
        l = l[len(ind):]
        if l.startswith("Label: "): return ("leaf", l[7:]), k + 1
        if not l.endswith(" not satisfied"): raise Violation("layout", "line %d: %r" % (k, l))
        pred = l[:-len(" not satisfied")]
        no, k = at(k + 1, ind + "|   ")
        if k >= len(lines) or lines[k] != ind + pred + " satisfied": raise Violation("layout", "the other branch of %r is missing" % pred)
        yes, k = at(k + 1, ind + "|   ")
        return (pred, no, yes), k
    t, k = at(0, "")
    if k != len(lines): raise Violation("layout", "lines after the tree: %r" % lines[k:])
    return t


NODE = re.compile(r'^(\d+) +\[(.*)\] ;$', re.S)
EDGE = re.compile(r'^(\d+) -> (\d+) \[(.*)\] ;$')
ATTR = re.compile(r'(\w+)=("(?:[^"]*)"|[^ ,]+)', re.S)


def parse_dot(text):
    if not text.startswith("digraph Tree {\n") or not text.rstrip().endswith("}"): raise Violation("layout", "not a graph: %r" % text[:80])
    nodes, kids = {}, {}
    for st in re.split(r" ;\n", text[len("digraph Tree {\n"):text.rstrip().rindex("}")]):
        st = st.strip("\n")
        if not st or st.startswith(("node ", "edge ")): continue
        m = EDGE.match(st + " ;")
        if m:
            a = {k: v.strip('"') for k, v in ATTR.findall(m.group(3))}
            if (int(m.group(1)), a.get("label")) in kids: raise Violation("layout", "two %s branches at %s" % (a.get("label"), m.group(1)))
            kids[int(m.group(1)), a.get("label")] = int(m.group(2))
            continue
        m = NODE.match(st + " ;")
        if not m: raise Violation("layout", "statement %r" % st)
        if int(m.group(1)) in nodes: raise Violation("layout", "node %s twice" % m.group(1))
        nodes[int(m.group(1))] = {k: v[1:-1] if v.startswith('"') else v for k, v in ATTR.findall(m.group(2))}
        for k in ("color", "fillcolor"):
            v = nodes[int(m.group(1))].get(k)
            if v is not None and not re.fullmatch(r"#[0-9a-fA-F]{6}", v): raise Violation("colour", "%s=%r" % (k, v))
    child = set(kids.values())
    roots = [k for k in nodes if k not in child]
    if len(roots) != 1 or len(child) != len(nodes) - 1: raise Violation("layout", "roots %r" % roots)

    def build(k):
        no, yes = kids.get((k, "False")), kids.get((k, "True"))
        if (no is None) != (yes is None): raise Violation("layout", "node %d has one branch" % k)
        a = nodes[k]
        if no is None: return ("leaf", a)
        return (a, build(no), build(yes))
    return build(roots[0])


FLOAT = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def same_name(text, name):
    """The text names the test, where a threshold may be rounded to three digits."""
    text = text.replace("&#8804;", "<=")
    if text == name: return True
    a, b = text.rsplit(" <= ", 1), name.rsplit(" <= ", 1)
    if len(a) == 2 and len(b) == 2 and a[0] == b[0] and re.fullmatch(FLOAT, a[1]) and re.fullmatch(FLOAT, b[1]):
        return abs(float(a[1]) - float(b[1])) <= 0.006 * abs(float(b[1])) + 1e-9
    return False


TERM = re.compile(r"\s*([-+]?)\s*(%s)(?:x(\d+))?" % r"(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def linear(text):
    """{0: intercept, j: coefficient}"""
    out, k = {}, 0
    while k < len(text):
        m = TERM.match(text, k)
        if not m or m.end() == k: raise Violation("leaf", "linear model %r" % text)
        out[int(m.group(3) or 0)] = float(m.group(2)) * (-1 if m.group(1) == "-" else 1)
        k = m.end()
    return out


def check(case):
    t = T.ALL[case["task"]]
    nm, form = t.name, case["form"]
    need_rows(case, 3)
    p = dict(case["params"])
    est = t.make(p)
    args = t.fit_args(case)
    kw = {}
    F = len(case["rows"]["X"][0])
    if form == "table":
        tab = case["tab"]
        args[0] = TB.data(tab, tab["R"], "frame")
        kw["categorical"] = TB.categorical(tab, "frame")
        later = TB.data(tab, tab["later"], "frame")
    else:
        later = np.array(case["later"]).reshape(len(case["later"]), -1)
        if form == "frame":
            args[0] = pd.DataFrame(args[0], columns=case["names"])
            later = pd.DataFrame(later, columns=case["names"])
    if "sens" in case: est.sensitive_feature = case["names"][case["sens"]] if form == "frame" and case["by_name"] else case["sens"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try: est.fit(*args, **kw)
        except ValueError:
            if form == "table": raise Skip()
            raise
    if not fitted(est): return Result(False, [nm, "no tree"])
    lb = [nm, form] + [k for k in ("given", "labels", "draw", "screen") if case.get(k)]
    root = est.get_tree()

    # the columns of the model in its own order, by the name that should be shown
    if form == "table": shown = list(est.feature_names_in_)
    elif "given" in case: shown = case["given"]
    elif form == "frame": shown = case["names"]
    else: shown = ["Feature %d" % j for j in range(F)]
    order = list(range(len(shown)))
    if "sens" in case: order = [t.orig(j, case["sens"]) for j in order]
    names = {"feature_names": case["given"]} if "given" in case else {}
    K = max(int(max(args[1])) + 1, 2) if nm in ("accuracy", "cost-complex-accuracy", "f1-score", "group-fairness", "equality-of-opportunity", "cost-sensitive") else 6
    label = lambda v: str(int(v))
    if "labels" in case and nm not in ("regression", "cost-complex-regression", "survival-analysis") and not nm.endswith("linear-regression"):
        names["label_names"] = [case["labels"] % k for k in range(K)]
        label = lambda v: names["label_names"][int(v)]

    lin = nm.endswith("linear-regression")
    sets = [(args[0], [args[2]] if lin else [])]
    if not lin: sets.append((later, []))
    preds = [np.asarray(est.predict(X, *e), dtype=float) for X, e in sets]

    unit = 1.0
    if nm == "survival-analysis":  # leaves show the hazard multiplier, the risk score is its product with the baseline hazards at the event times
        r = case["rows"]
        base = t.baseline(r["T"], r["E"])
        unit = sum(t.at(base, v) for v in sorted(set(v for v, e in zip(r["T"], r["E"]) if e)))

    def model_rows(X):
        """Binary rows in the order of the model's columns."""
        if form == "table": return np.asarray(est.binarizer_.transform(X)).astype(int)
        return np.asarray(X)[:, order]

    def leaf_ok(text, pred, z):
        if lin:
            c = linear(text)
            v = sum(b * (1 if k == 0 else z[k - 1]) for k, b in c.items())
            tol = 1e-5 * (1 + sum(abs(b * (1 if k == 0 else z[k - 1])) for k, b in c.items())) + 2e-6 * sum(abs(x) for x in z)
            if abs(v - pred) > tol: raise Violation("leaf", "%r gives %r for %r, predicted %r" % (text, v, list(z), pred))
        elif nm in ("regression", "cost-complex-regression", "survival-analysis"):
            if not T.close(float(text) * unit, pred, 1e-6): raise Violation("leaf", "leaf %r, predicted %r" % (text, pred))
        elif text != label(pred): raise Violation("leaf", "leaf %r, predicted %r (%r)" % (text, pred, label(pred)))

    def follow(tree, pred_of, leaf_of, what):
        # structure: every shown predicate names the model's column
        def walk(shown_tree, node):
            if node.is_leaf_node() != (shown_tree[0] == "leaf"): raise Violation("structure", "%s differs from the tree" % what)
            if node.is_leaf_node(): return
            text = pred_of(shown_tree[0])
            if text is not None and not same_name(text, shown[order[node.feature]]):
                raise Violation("predicate", "%s shows %r for the test on %r" % (what, text, shown[order[node.feature]]))
            walk(shown_tree[1], node.left_child)
            walk(shown_tree[2], node.right_child)
        walk(tree, root)
        # meaning: following the text by the names alone leads to the prediction
        for (X, e), pr in zip(sets, preds):
            B = model_rows(X)
            for i in range(len(B)):
                s, n = tree, root
                while s[0] != "leaf":
                    text = pred_of(s[0])
                    js = [n.feature] if text is None else [j for j in range(len(order)) if same_name(text, shown[order[j]])]
                    j = n.feature if n.feature in js else js[0]
                    go = B[i][j]
                    s, n = (s[2], n.right_child) if go else (s[1], n.left_child)
                text = leaf_of(s[1])
                if text is not None: leaf_ok(text, pr[i], e[0][i] if e else None)

    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "t")
        est.print_tree(f, **names)
        with open(f, encoding="utf-8") as fh: text = fh.read()
        if case["screen"]:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf): est.print_tree(**names)
            if buf.getvalue() != text: raise Violation("screen", "printed %r, written %r" % (buf.getvalue(), text))
        tree = parse_text(text.split("\n")[:-1])
        follow(tree, lambda a: a, lambda a: a, "print_tree")

        hide = nm in IMAGES and not case["draw"]
        keep = {k: sys.modules[k] for k in list(sys.modules) if hide and k.split(".")[0] == "matplotlib"}
        if hide:
            for k in keep: del sys.modules[k]
            sys.modules["matplotlib"] = sys.modules["matplotlib.pyplot"] = None
        try: est.export_dot(os.path.join(d, "g.dot"), **names)
        finally:
            if hide:
                del sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"]
                sys.modules.update(keep)
            elif nm in IMAGES:
                import matplotlib.pyplot as plt
                plt.close("all")
        with open(os.path.join(d, "g.dot"), encoding="utf-8") as fh: text = fh.read()
        tree = parse_dot(text)

        def of(a):
            if "image" in a:
                if not os.path.exists(a["image"]): raise Violation("image", "%s was not written" % a["image"])
                return None
            return a["label"]
        follow(tree, lambda a: of(a) if of(a) is None else of(a).split("\n")[0] if nm == "instance-cost-sensitive" else of(a), of, "export_dot")
        if nm == "instance-cost-sensitive": costs_ok(case, tree, root, args, label)
    return Result(not root.is_leaf_node(), lb, evals=2)


def costs_ok(case, tree, root, args, label):
    """The numbers at the branching nodes: instances, cheapest label, its average cost."""
    X, C = np.asarray(args[0]), np.asarray(args[1])

    def walk(s, n, idx):
        if s[0] == "leaf": return
        a = s[0]
        if "image" not in a and len(idx):
            m = re.search(r"\nN = (\d+), Best = (.*), Costs = (.*)$", a["label"], re.S)
            if not m: raise Violation("costs", "node text %r" % a["label"])
            avg = C[idx].mean(axis=0)
            if int(m.group(1)) != len(idx): raise Violation("costs", "N = %s, the node has %d instances" % (m.group(1), len(idx)))
            if not T.close(float(m.group(3)), float(avg.min()), 0.006): raise Violation("costs", "costs %s instead of %r" % (m.group(3), avg.min()))
            if m.group(2) not in [label(k) for k in range(len(avg)) if avg[k] <= avg.min() + 1e-9 * (1 + abs(avg.min()))]:
                raise Violation("costs", "best label %s, average costs %r" % (m.group(2), avg.tolist()))
        walk(s[1], n.left_child, idx[X[idx, n.feature] == 0])
        walk(s[2], n.right_child, idx[X[idx, n.feature] != 0])
    walk(tree, root, np.arange(len(X)))
